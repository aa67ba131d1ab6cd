"""L08: %fallback, %wildcard, %token_class and A|B."""
import random
from .. import env, gen, le, lsim, lchk
from ..lr import Grammar, LALR, byacc_table

TECH = 'runtime event monitor: generated parsers (ASan/UBSan) with fallbacks, wildcards and classes compared with a model that looks the actions up by the documented rules'
NOTE = 'Held on the executions observed: every action, value, token code and callback equals the model\'s, which expands classes to their members.'
TOOLS = ['lemon-san']
RULE = ('one evaluation = one token sequence parsed by a generated parser, its event log compared with the model; distinct nontrivial = distinct (grammar, declarations, input) '
        'in which at least one token was used through a fallback, the wildcard or a class')
ASSUMES = ['the reference automaton and run model (vf/lr.py, vf/lsim.py): own action, then the fallback, then the wildcard, then the default reduction',
           'fallbacks are not chained (lemon gives such chains no meaning) and are not combined with %nonassoc']


def plan(ctx):
    k = 6 if ctx.thorough else 1
    out = [['fb', i] for i in range(65 * k)] + [['wild', i] for i in range(50 * k)] + [['class', i] for i in range(65 * k)] + [['all', i] for i in range(65 * k)]
    random.Random(ctx.seed).shuffle(out)
    return out


def extend(g, k):
    """k further terminals, used nowhere."""
    sh = lambda x: x + k if x >= g.T else x
    o = lambda x: None if x is None else sh(x)
    return Grammar(g.T + k, g.N, [(sh(l), tuple(sh(x) for x in r)) for l, r in g.rules], sh(g.start), [o(p) for p in g.rprec],
                   dict(g.tprec), o(g.err), list(g.terms) + ['F%d_' % i for i in range(k)], list(g.nts))


def make(rng, kind):
    for _ in range(80):
        f = lsim.Full()
        r = rng.random()
        if r < 0.3:
            g0 = gen.ambiguous(rng, assocs='LR')
            if g0.loopy():
                continue
        elif r < 0.45:
            g0 = gen.error_grammar(rng)
            if g0.loopy():
                continue
            g0 = lsim.err_nt(g0)
        else:
            g0 = gen.conflict_free(rng, rng.choice(['tiny', 'small', 'medium', 'unit', 'null', 'gadget', 'mix', 'expr', 'kw']))
        g = le.start_ok(extend(g0, rng.choice([1, 2, 3, 4, 5, 8])))
        terms = list(range(1, g.T))
        fresh = [x for x in terms if g.terms[x].endswith('_')]
        used = [x for x in terms if x not in fresh]
        if len(used) < 2:
            continue
        if g.tprec and rng.random() < 0.6:
            levels = sorted(set(g.tprec.values()))
            for x in fresh:
                if rng.random() < 0.4:
                    g.tprec[x] = rng.choice(levels)
        rng.shuffle(used)
        if kind in ('wild', 'all') and rng.random() < 0.9:
            f.wild = used.pop()
        if kind in ('class', 'all'):
            for q in range(rng.randint(1, min(3, len(used)))):
                if not used:
                    break
                c = used.pop()
                mem = rng.sample(fresh, rng.randint(1, min(rng.choice([3, 3, 8]), len(fresh))))
                if used and rng.random() < 0.35:
                    mem.append(rng.choice(used))
                if f.wild is not None and rng.random() < 0.1:
                    mem.append(f.wild)
                rng.shuffle(mem)
                nm = 'cls%d' % q if rng.random() < 0.5 else None
                if nm is None and len(mem) < 2:
                    nm = 'cls%d' % q
                make1 = [(c, nm, mem)]
                ex = [x for x in fresh + used if x not in mem]
                if nm and used and ex and rng.random() < 0.4:
                    ex = rng.sample(ex, min(len(ex), rng.randint(1, 2)))
                    use = [x for x in used if x not in ex]
                    if use:
                        c2 = rng.choice(use)
                        used.remove(c2)
                        make1.append((c2, (nm, ex), mem + ex))
                for c, nm, mem in make1:
                    f.classes[c] = (nm, mem)
                    for m in mem:
                        if m in g.tprec:
                            g.tprec[c] = g.tprec[m]
                            break
                    else:
                        g.tprec.pop(c, None)
        if any(m in f.classes for _, mem in f.classes.values() for m in mem):
            continue
        if any(p in f.classes for p in g.rprec):
            continue
        if kind in ('fb', 'all'):
            pool = [x for x in terms if x not in f.classes and x != f.wild]
            rng.shuffle(pool)
            tg = pool[:max(1, len(pool) // 3)]
            for x in pool[len(tg):]:
                if rng.random() < 0.7:
                    f.fallback[x] = rng.choice(tg)
        P = lchk.prepare(g, f)
        if P:
            return g, f, P, g0
    return None


def case(ctx, c):
    rng = c.rng
    S = make(rng, c.spec[0])
    if not S:
        return
    g, f, (a, v, t), g0 = S
    lsim.randomize(rng, g, f, dest=rng.random() < 0.4)
    for i in f.labels:
        f.at[i] = {j for j in f.labels[i] if g.rules[i][1][j] < g.T and rng.random() < 0.7}
    f.stack = 0
    order = [x for x in range(1, g.T)]
    rng.shuffle(order)
    real = [x for x in order if x not in f.classes]
    opts = [o for o in ('-c', '-l', '-r', '-q') if rng.random() < 0.15]
    files = lchk.build(c, g, f, rng, t, opts, order)
    if files is None:
        return
    sim = lsim.LSim(v, t, f, '-c' not in opts, real)
    hits = [0]
    look = sim.lookup

    def lookup(s, x):
        r = look(s, x)
        if r is not None and x not in t.action[s] and (x in f.fallback or f.wild is not None):
            hits[0] += 1
        elif r is not None and any(x in m for _, m in f.classes.values()):
            hits[0] += 1
        return r
    sim.lookup = lookup
    a0 = a if g.err is not None else LALR(g)
    I = gen.Inputs(g, a0, rng)
    base = [x for x in (g.sentence(rng, rng.choice([3, 8, 15, 30, 60])) for _ in range(60)) if x is not None and len(x) < 80]
    if g.err is None:
        base += I.many(byacc_table(a0), 10, 20, 5, 80, 15, 50)
    inv = {}
    for x, u in f.fallback.items():
        inv.setdefault(u, []).append(x)

    def real_tokens(x):
        out = []
        p = rng.choice([0, 0.3, 0.7])
        for y in x:
            if y >= g.T or y == g.err:
                continue
            if y in f.classes:
                y = rng.choice(f.classes[y][1])
            if y == f.wild and rng.random() < 0.8:
                y = rng.choice(real)
            if y in inv and rng.random() < p:
                y = rng.choice(inv[y])
            out.append(y)
        return out
    ins = [real_tokens(x) for x in base]
    for x in list(ins):
        if rng.random() < 0.6:
            y = list(x)
            for _ in range(rng.randint(1, 3)):
                k = rng.randrange(3)
                if k == 0 and y:
                    y[rng.randrange(len(y))] = rng.choice(real)
                elif k == 1:
                    y.insert(rng.randint(0, len(y)), rng.choice(real))
                elif y:
                    del y[rng.randrange(len(y))]
            ins.append(y)
    ins += [[rng.choice(real) for _ in range(rng.randint(0, 7))] for _ in range(20)]

    def hot(m):
        h, hits[0] = hits[0], 0
        return h > 0
    what = 'lemon ' + ' '.join(opts)
    if lchk.compare(c, sim, lchk.sequences(rng, ins), files, what, 'lookup', g, f, interesting=hot):
        for n, k in (('fallbacks', len(f.fallback)), ('wildcards', f.wild is not None), ('classes', len(f.classes)),
                     ('classes_extended_in_a_rule', sum(isinstance(n, tuple) for n, _ in f.classes.values()))):
            c.count(n, int(k))
