"""X01: byacc and lemon agree on equivalent grammars, and conversions round-trip."""
import random, sqlite3
from .. import env, gen, by, le, bplain, lplain
from ..lr import LALR, Grammar, byacc_table, lemon_table, byacc_quirk, run
from .b12 import key

TECH = ('differential runtime monitor: both sanitized generators get the same grammar, their conflict counts and the logged reductions and verdicts of both compiled parsers are compared '
        'with each other; grammars sent through byacc -E and lemon -y/-Y and back are read again and compared with what was written')
NOTE = ('Held on the runs observed. The reference tables (vf/lr.py) only tell which grammars the two tools treat differently by design (reduce/reduce conflicts between rules with '
        'precedences without -z, and the %nonassoc finding of B02).')
TOOLS = ['byacc-san', 'nbyacc-san', 'lemon-san']
RULE = ('one evaluation = one pair of conflict counts, one input given to both parsers, or one rule of a grammar that was converted and converted back; distinct nontrivial = '
        'distinct (grammar, mode, input) and (grammar, route)')
ASSUMES = ['symbols of a converted grammar are matched by their position in the rules', 'grammars that are cyclic or hidden left-recursive are compared for their counts only']
MODES = {'': ['-z'], '-z': [], '-u': ['-u']}     # byacc's option -> lemon's
KF = 'nonassoc-default'


def plan(ctx):
    k = 8 if ctx.thorough else 1
    out = [['pair', i] for i in range(300 * k)] + [['bl', i] for i in range(200 * k)] + [['lb', i] for i in range(200 * k)]
    random.Random(ctx.seed).shuffle(out)
    return [['na', 0]] + out


def case(ctx, c):
    if c.spec[0] in ('pair', 'na'):
        return pair(c)
    return trip(c)


def pair(c):
    rng = c.rng
    if c.spec[0] == 'na':
        g = gen.g_text('s: e ; e: e LT e | N')
        g.tprec = {1: (1, 'N')}
        mode = ''
    else:
        while True:
            g = bplain.grammar(rng, ('cf', 'amb', 'amb', 'amb'))
            if rng.random() < 0.5:
                g.tprec = {t: (l, 'L' if a == 'N' else a) for t, (l, a) in g.tprec.items()}
            if g.err is None and len(g.rules) < 150:
                break
        mode = rng.choice(['', '', '-z', '-z', '-u'])
    g = le.start_ok(g)
    a, a2 = LALR(g), LALR(g, augmented=False)
    tb = byacc_table(a, z=mode == '-z', u=mode == '-u')
    tl = lemon_table(a2, z=mode == '', u=mode == '-u')
    quirk = byacc_quirk(a, tb)
    variant = 'byacc' if rng.random() < 0.6 else 'nbyacc'
    silent = frozenset(j for j in range(len(g.rules)) if rng.random() < rng.choice([0, 0, 0.2]))
    # the value a rule without action gives is defined for unit rules only
    k = 1 if any(len(g.rules[j][1]) != 1 for j in silent) else 2
    sb, sl = by.Spell(g, rng), le.Spell(g)
    ty, tx = by.emit_plain(g, sb, rng, silent), le.emit_plain(g, sl, rng, silent)
    bo = ([mode] if mode else []) + [o for o in ('-l', '-d', '-t') if rng.random() < 0.1]
    lo = MODES[mode] + [o for o in ('-l', '-c', '-q') if rng.random() < 0.1]
    c.write('b.y', ty)
    c.write('l.y', tx)
    files = {'b.y': ty, 'l.y': tx, 'cmd': '%s %s b.y; lemon %s l.y\n' % (variant, ' '.join(bo), ' '.join(lo))}
    r, q = by.run_byacc(c, variant, bo, 'b.y'), le.run_lemon(c, lo, 'l.y')
    files['stderr-byacc'], files['stderr-lemon'] = r.err, q.err
    if r.slow or q.slow:
        return c.inconclusive('generator slow')
    if r.bad() or r.rc:
        return c.violation('generator', '%s: %s (exit %s)' % (variant, r.bad() or 'fails', r.rc), files)
    if q.bad() or q.rc not in (0, 1):
        return c.violation('generator', 'lemon: %s (exit %s)' % (q.bad() or 'fails', q.rc), files)
    n, ln = sum(by.conflicts(r.etext)), le.conflicts(q.etext)
    same = tb.sr + tb.rr == tl.sr + tl.rr
    if same:
        c.evals += 1
        c.saw(g.rules, g.tprec, mode)
        c.count('conflict counts compared')
        c.count('conflicts', n)
        if n != ln:
            return c.violation('counts', 'byacc %s finds %d conflicts, lemon %s %d\n%s\nprec %s' % (mode, n, lo, ln, g.text(), g.tprec), files)
    else:
        c.count('counted differently by design')
        if mode:
            return c.violation('counts', 'byacc %s counts %d conflicts, lemon %s %d\n%s\nprec %s' % (mode, tb.sr + tb.rr, lo, tl.sr + tl.rr, g.text(), g.tprec), files)
    if q.rc and not ln and 'can not be reduced' not in q.etext:
        return c.violation('counts', 'lemon exits %d without a reason' % q.rc, files)
    if g.loopy():
        return
    for src, exe in (('y.tab.c', 'pb'), ('l.c', 'pl')):
        rc, msg = env.compile_c([src], exe, cwd=c.dir)
        if rc:
            return c.violation('compile', '%s does not compile:\n%s' % (src, msg[:1500]), files)
    I = gen.Inputs(g, a, rng)
    ins, own = [], {}
    for x in [[2, 1, 2, 1, 2]] if c.spec[0] == 'na' else I.many(tb, n_sent=50, cover=180, budget=14, maxtok=80):
        wb, wl = run(a, tb, x, 20000), run(a2, tl, x, 20000)
        if wb is None or wl is None:
            continue
        if (wb.ok, wb.pos) != (wl.ok, wl.pos) or wb.ok and list(wb.reds) != list(wl.reds):
            c.count('inputs decided differently by design')
            if mode:
                raise AssertionError('the reference tables differ')
            continue
        if quirk is not None:
            wq = run(a, quirk, x, 20000)
            own[tuple(x)] = wq is None or (wq.ok, wq.pos) != (wb.ok, wb.pos)
        ins.append(x)
    if not ins:
        return
    lb = by.drive(c, './pb', ins, 'byacc parser', files)
    ll = by.drive(c, './pl', ins, 'lemon parser', files) if lb is not None else None
    if ll is None:
        return
    for x, p, q in zip(ins, lb, ll):
        ob, ol = by.parse_line(p), le.parse_line(q)
        if ol['over'] or ob['res'] == 2 or variant == 'nbyacc' and len(x) > 150:
            c.count('stack overflows')
            continue
        c.evals += 1
        if ob['res'] == 0 and not ob['errs']:
            vb = ('accepted', [y[:k] for y in ob['reds']])
        else:
            vb = ('rejected', ob['errs'][0] - 1 if ob['errs'] else None)
        if ol['errs']:
            vl = ('rejected', ol['errs'][0][0])
        else:
            vl = ('accepted' if ol['acc'] is not None else '?', [y[:k] for y in ol['reds']])
        if vb != vl:
            kid = KF if own.get(tuple(x)) else 'differ'
            c.violation(kid, 'input %s: byacc %s says %s, lemon %s\n%s\nprec %s' % (' '.join(g.name(y) for y in x), mode, vb, vl, g.text(), {g.name(t): v for t, v in g.tprec.items()}),
                        dict(files, input=by.feed([x]), byacc_events=p, lemon_events=q))
            if kid != KF:
                return
            continue
        c.saw(g.rules, g.tprec, mode, tuple(x))
        c.count(vb[0])
        if g.tprec:
            c.count('with precedences')
        if vb[0] == 'accepted' and len(x) > 3:
            c.sample(dict(grammar=g.text()[:400], mode=mode, input=[g.name(y) for y in x], verdict=str(vb)[:300]))


def match(got, want, skip=()):
    """None or why two models (term predicate, prec, rules, start) are not one grammar under some renaming.  want's
    start rule may be missing (skip)."""
    gt, gp, gr, gs = got
    wt, wp, wr, ws = want
    if len(gr) != len(wr):
        return '%d rules, expected %d' % (len(gr), len(wr))
    to, back = {}, {}

    def put(x, y):
        if gt(x) != wt(y):
            return '%s stands for %s' % (x, y)
        if to.setdefault(x, y) != y or back.setdefault(y, x) != x:
            return '%s stands for %s, %s for %s' % (x, to[x], back[y], y)
    m = put(gs, ws)
    for i, ((l, r, p), (l2, r2, p2)) in enumerate(zip(gr, wr)):
        if len(r) != len(r2):
            return 'rule %d has %d symbols, expected %d' % (i, len(r), len(r2))
        for x, y in [(l, l2)] + list(zip(r, r2)):
            m = m or put(x, y)
        if (p is None) != (p2 is None):
            return 'rule %d has the mark %s, expected %s' % (i, p, p2)
        if p is not None:
            m = m or put(p, p2)
        if m:
            return 'rule %d: %s' % (i, m)
    a, b = bplain.prec_order({to[x]: v for x, v in gp.items() if x in to}), bplain.prec_order({y: v for y, v in wp.items() if y in back})
    if a != b:
        return 'precedences %s, expected %s' % (a, b)
    if len(gp) != len(wp):
        return '%d tokens with a precedence, expected %d' % (len(gp), len(wp))
    return None


def prod(m):
    """The rules of a lemon model without classes."""
    return [(l, [x[0] if isinstance(x, tuple) else x for x in r], p) for l, r, p in m['rules']]


def first(rules, start):
    for i, x in enumerate(rules):
        if x[0] == start:
            return [x] + rules[:i] + rules[i + 1:]
    return rules


def trip(c):
    """byacc -> lemon -> byacc, or lemon -> byacc -> lemon."""
    rng = c.rng
    bl = c.spec[0] == 'bl'
    while True:
        g = bplain.grammar(rng, ('cf', 'cf', 'amb', 'amb'))
        if g.err is None and len(g.rules) < 150:
            break
    variant = 'byacc' if rng.random() < 0.6 else 'nbyacc'
    mode = rng.choice(['', '-z'])
    bm, lm = [mode] if mode else [], MODES[mode]
    how = rng.choice(['-y', '-Y'])
    cmds, files = [], {}

    def step(r, name, out, rcs=(0,)):
        files[name + '-stderr'] = r.err
        files['cmd'] = '\n'.join(cmds) + '\n'
        if r.slow:
            c.inconclusive('generator slow')
            return None
        if r.bad() or r.rc not in rcs:
            c.violation('convert', '%s: %s (exit %s)\n%s' % (cmds[-1], r.bad() or 'fails', r.rc, r.etext[:800]), files)
            return None
        t = r.out if out is None else open(c.path(out), 'rb').read()
        files[out or 'printed.y'] = t
        return t

    def byacc(opts, f):
        cmds.append('%s %s %s' % (variant, ' '.join(opts), f))
        return by.run_byacc(c, variant, opts, f)

    def lemon(opts, f):
        cmds.append('lemon %s %s' % (' '.join(opts), f))
        return le.run_lemon(c, opts, f)

    if bl:
        nm = bplain.Names(g, rng, string=0, odd=0)
        if len(set(key(str(v)) for _, v in nm.key.values())) < len(nm.key) or any('$' in str(v) or len(str(v)) > 50 for _, v in nm.key.values()):
            return
        text, bare, mids = bplain.emit(g, nm, rng, mid=0, act=0 if rng.random() < 0.5 else 0.4, typed=0, btyacc=variant == 'byacc')
        c.write('g.y', text.encode('latin-1'))
        files['g.y'] = text.encode('latin-1')
        r = byacc(['-E'] + bm, 'g.y')
        if step(r, 'byacc', 'y.yl') is None:
            return
        n0 = sum(by.conflicts(r.etext))
        p = step(lemon([how] + lm, 'y.yl'), 'lemon', None, (0, 1))
        if p is None:
            return
        c.write('p.y', p)
        r2 = byacc(bm, 'p.y')
        if step(r2, 'byacc2', 'y.tab.c') is None:
            return
        files.pop('y.tab.c')
        n1 = sum(by.conflicts(r2.etext))
        body = '\n'.join(x for x in p.decode('latin-1').split('\n') if not x.startswith('//')) + '%%\n'
        if body.count('%%') == 2:
            body = body[:body.rindex('%%')]
        try:
            terms, prec, rules, start = bplain.parse_plain(body)
        except (bplain.Bad, IndexError, ValueError) as e:
            return c.violation('round-trip', 'the grammar that comes back is unreadable: %r' % e, files)
        rec = any(g.start in x for _, x in g.rules)
        top = g.T + g.N if rec else g.start
        wr = ([(top, [g.start], None)] if rec else []) + [(l, list(r), g.rprec[i]) for i, (l, r) in enumerate(g.rules)]
        gr = first(rules, start) if rec else rules
        rp = None
        if how == '-Y':
            # -Y writes the marks that apply
            wr = [(l, r, p if p is not None else eff(r, g, mode)) for l, r, p in wr]
        msg = match((lambda x: x[0] == 't', prec, gr, start), (lambda x: x < g.T, g.tprec, wr, top))
    else:
        g = le.start_ok(g)
        text, m = lplain.emit(g, rng, fb=False, classes=False, wild=False, stack=False)
        names = sorted(m['terms'] | set(l for l, _, _ in m['rules']))
        if len(set(key(x) for x in names)) < len(names) or any(len(x) > 50 for x in names):
            return
        c.write('g.y', text)
        files['g.y'] = text
        r = lemon(lm + ['-q'], 'g.y')
        if r.slow:
            return c.inconclusive('generator slow')
        n0 = le.conflicts(r.etext)
        p = step(lemon([how] + lm, 'g.y'), 'lemon', None, (0, 1))
        if p is None:
            return
        c.write('p.y', p)
        if step(byacc(['-E'] + bm, 'p.y'), 'byacc', 'y.yl') is None:
            return
        r2 = lemon(['-S', '-q'] + lm, 'y.yl')
        if step(r2, 'lemon2', 'y.sql', (0, 1)) is None:
            return
        n1 = le.conflicts(r2.etext)
        db = sqlite3.connect(':memory:')
        try:
            db.executescript(open(c.path('y.sql')).read())
            m2 = lplain.parse_sql(db)
        except (sqlite3.Error, bplain.Bad) as e:
            return c.violation('round-trip', 'the grammar that comes back is unreadable: %r' % e, files)
        wr = prod(m)
        if how == '-Y':
            wr = [(l, r, p if p is not None else leff(r, m, mode)) for l, r, p in wr]
        msg = match((lambda x: x not in m2['nts'], m2['prec'], prod(m2), m2['start']), (lambda x: x in m['terms'], m['prec'], wr, m['start']))
    c.evals += len(wr)
    if msg:
        return c.violation('round-trip', '%s: %s' % ('; '.join(cmds), msg), files)
    c.evals += 1
    if n0 != n1:
        return c.violation('round-trip', '%s: %d conflicts before, %d after' % ('; '.join(cmds), n0, n1), files)
    c.count('round trips byacc-lemon-byacc' if bl else 'round trips lemon-byacc-lemon')
    c.count('round trips with conflicts', int(n0 > 0))
    c.count('rules compared', len(wr))
    c.saw(text, mode, how)


def eff(r, g, mode):
    t = [x for x in r if x < g.T]
    if mode == '':
        return t[-1] if t and t[-1] in g.tprec else None
    return next((x for x in t if x in g.tprec), None)


def leff(r, m, mode):
    t = [x for x in r if x in m['terms']]
    if mode == '':
        return t[-1] if t and t[-1] in m['prec'] else None
    return next((x for x in t if x in m['prec']), None)
