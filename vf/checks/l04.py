"""L04: labels, types, extra arguments."""
import random
from .. import env, gen, le, lsim, lchk

TECH = 'runtime event monitor: every value that an action sees logged by the generated parser (ASan/UBSan) and compared with a model run'
NOTE = ('Held on the executions observed: labels on both sides, @label, label shared with the first symbol, overwrites comments, %type and '
        '%default_type, %extra_argument and %extra_context; misused labels must be refused with the right line.')
TOOLS = ['lemon-san']
RULE = ('one evaluation = one token sequence parsed by a generated parser with random labels, types and extra arguments, all values seen by '
        'actions compared with the model, or one grammar with a misused label; distinct nontrivial = distinct (grammar, labels, input)')
ASSUMES = ['the reference automaton and run model (vf/lr.py, vf/lsim.py)']


def plan(ctx):
    k = 6 if ctx.thorough else 1
    out = [['val', i] for i in range(210 * k)] + [['bad', i] for i in range(90 * k)]
    random.Random(ctx.seed).shuffle(out)
    return out


def grammar(rng):
    k = rng.random()
    if k < 0.75:
        g = gen.conflict_free(rng, rng.choice(['tiny', 'small', 'medium', 'unit', 'null', 'gadget', 'mix', 'expr', 'kw', 'long']))
    else:
        g = gen.ambiguous(rng, assocs='LR')
        while g.loopy():
            g = gen.ambiguous(rng, assocs='LR')
    return le.start_ok(g)


def bad(ctx, c):
    """One label is misused; lemon must say so, naming the rule's line, and fail."""
    rng = c.rng
    f = lsim.Full()
    for _ in range(40):
        g = grammar(rng)
        P = lchk.prepare(g, f)
        if P:
            break
    else:
        return
    lsim.randomize(rng, g, f)
    f.style = 0
    f.silent = frozenset()
    for i, (l, r) in enumerate(g.rules):
        if i not in f.labels:
            f.labels[i] = set(range(len(r)))
            f.lmode[i] = 'own'
    sp = le.Spell(g)
    text = lsim.emit(g, sp, rng, f, ['%%expect %d' % (P[2].sr + P[2].rr)] if P[2].sr + P[2].rr else [])
    lines = text.split('\n')
    rl = [k for k, s in enumerate(lines) if ' ::= ' in s and '{' in s]
    k = rng.choice(rl)
    s = lines[k]
    head, code = s.split('{', 1)
    code = '{' + code
    kind = rng.choice(['unused-rhs', 'unused-lhs', 'dup', 'lhs-not-first', 'types', 'over'])
    import re
    m = re.match(r'(\w+)(\((\w+)\))? ::= (.*?)\.(.*)$', head)
    syms = m.group(4).split()
    li = rl.index(k)
    l, r = g.rules[li]
    want = None
    if len(syms) != len(r):
        return
    if kind == 'unused-rhs':
        free = [j for j, x in enumerate(syms) if '(' not in x]
        if not free:
            return
        j = rng.choice(free)
        syms[j] += '(UNUSED)'
        want = 'UNUSED'
    elif kind == 'unused-lhs':
        if m.group(2):
            return
        head = m.group(1) + '(UNUSED) ::= '
        s2 = '%s::= %s.%s %s' % (m.group(1) + '(UNUSED) ', ' '.join(syms), m.group(5), code)
        want = 'UNUSED'
    elif kind == 'dup':
        if len(syms) < 2:
            return
        a, b = rng.sample(range(len(syms)), 2)
        for j in (a, b):
            syms[j] = syms[j].split('(')[0] + '(DUP)'
        code = re.sub(r'\b[A-QS-Z]\b|\bL\d+\b', 'DUP', code)
        want = 'DUP'
    elif kind == 'lhs-not-first':
        if len(syms) < 2 or not m.group(2):
            return
        j = rng.randrange(1, len(syms))
        syms[j] = syms[j].split('(')[0] + m.group(2)
        want = m.group(3)
    elif kind == 'types':
        if not syms or l == g.start:
            return
        if lsim.key_of(f, g, l) == lsim.key_of(f, g, r[0]):
            return
        syms[0] = syms[0].split('(')[0] + '(SHARED)'
        s2 = '%s(SHARED) ::= %s.%s { SHARED; %s' % (m.group(1), ' '.join(x.split('(')[0] for x in [syms[0]][:0]) + ' '.join([syms[0]] + [x.split('(')[0] for x in syms[1:]]), m.group(5), '}')
        want = 'SHARED'
    else:
        if not syms:
            return
        syms = ['%s(AA)' % syms[0].split('(')[0]] + [x.split('(')[0] for x in syms[1:]]
        s2 = '%s(RR) ::= %s.%s { /*RR-overwrites-AA*/ RR; AA; }' % (m.group(1), ' '.join(syms), m.group(5))
        want = 'AA'
    if kind not in ('unused-lhs', 'types', 'over'):
        s2 = '%s%s ::= %s.%s %s' % (m.group(1), m.group(2) or '', ' '.join(syms), m.group(5), code)
    lines[k] = s2
    text2 = '\n'.join(lines)
    c.write('g.y', text2)
    r = le.run_lemon(c, [])
    c.evals += 1
    files = {'g.y': text2, 'stderr': r.err}
    if r.slow:
        return c.inconclusive('slow')
    if r.bad() or r.rc != 1 or not any(('g.y:%d:' % (k + 1)) in x and want in x for x in r.etext.split('\n')):
        return c.violation('misused-label', 'a misused label (%s, line %d: %s) is not reported: %s exit %s\n%s' % (kind, k + 1, s2, r.bad(), r.rc, r.etext[:800]), files)
    c.saw('bad', s2)
    c.count('misused labels refused: ' + kind)


def case(ctx, c):
    if c.spec[0] == 'bad':
        return bad(ctx, c)
    rng = c.rng
    f = lsim.Full()
    for _ in range(60):
        g = grammar(rng)
        P = lchk.prepare(g, f)
        if P:
            break
    else:
        return
    a, v, t = P
    lsim.randomize(rng, g, f, dest=rng.random() < 0.5)
    f.stack = rng.choice([None, 0, 500])
    order = list(range(1, g.T))
    rng.shuffle(order)
    opts = [o for o in ('-c', '-l', '-r', '-q') if rng.random() < 0.12]
    files = lchk.build(c, g, f, rng, t, opts, order)
    if files is None:
        return
    I = gen.Inputs(g, a, rng)
    ins = [x for x in I.many(t, 30, 8, 4, 60, 30, 120)]
    sim = lsim.LSim(v, t, f, '-c' not in opts, order)
    lchk.compare(c, sim, lchk.sequences(rng, ins, join=0.1), files, 'lemon ' + ' '.join(opts), 'values', g, f)
