"""B14: -e lists exactly the grammar's rules."""
import random, re
from .. import by, bplain

TECH = 'runtime output monitor: the -e file of the sanitized generator is read by an independent reader and compared definition by definition with the grammar that was written'
NOTE = 'Held on the runs observed; for each grammar the comparison of definitions, alternatives and symbols is complete.'
TOOLS = ['byacc-san', 'nbyacc-san']
RULE = 'one evaluation = one alternative of a -e file compared with the rule of the grammar; distinct nontrivial = distinct (grammar, spelling) compared'
ASSUMES = ['the reader of EBNF files in this file']


def plan(ctx):
    out = [[i] for i in range(700 * (10 if ctx.thorough else 1))]
    random.Random(ctx.seed).shuffle(out)
    return out


def parse_ebnf(text, nts):
    """[(nonterminal, [alternatives])]"""
    t = bplain.tokens(text)
    out = []
    i = 0
    while i < len(t):
        if i + 1 < len(t) and t[i + 1] == '::=':
            out.append((bplain.canon(t[i], nts), [[]]))
            i += 2
        elif not out:
            raise bplain.Bad('%s before any definition' % t[i])
        elif t[i] == '|':
            out[-1][1].append([])
            i += 1
        elif t[i][0] in ':;%':
            raise bplain.Bad('unexpected %s' % t[i])
        else:
            out[-1][1][-1].append(bplain.canon(t[i], nts))
            i += 1
    return out


def case(ctx, c):
    rng = c.rng
    g = bplain.grammar(rng)
    nm = bplain.Names(g, rng)
    variant = 'byacc' if rng.random() < 0.6 else 'nbyacc'
    text, bare, mids = bplain.emit(g, nm, rng, btyacc=variant == 'byacc', mid=rng.choice([0, 0.2]))
    c.write('g.y', text.encode('latin-1'))
    opts = ['-e'] + [o for o in ('-d', '-v', '-l', '-t', '-u', '-z') if rng.random() < 0.1]
    r = by.run_byacc(c, variant, opts)
    files = {'g.y': text.encode('latin-1'), 'cmd': '%s %s g.y\n' % (variant, ' '.join(opts)), 'stderr': r.err}
    if r.slow:
        return c.inconclusive('generator slow')
    if r.bad() or r.rc:
        return c.violation('generator', '%s %s: %s (exit %s)\n%s' % (variant, opts, r.bad() or 'fails', r.rc, r.etext[:500]), files)
    files['y.ebnf'] = open(c.path('y.ebnf'), 'rb').read()
    txt = files['y.ebnf'].decode('latin-1')
    nts = set(nm.key[n][1] for n in range(g.T, g.T + g.N))
    try:
        got = parse_ebnf(txt, nts)
    except bplain.Bad as e:
        return c.violation('ebnf', str(e), files)
    want = {}
    for l, rhs in g.rules:
        want.setdefault(l, []).append([nm.key[x] for x in rhs])
    want = [(nm.key[l], v) for l, v in want.items()]
    for i in range(max(len(got), len(want))):
        x = got[i] if i < len(got) else None
        y = want[i] if i < len(want) else None
        if x != y:
            return c.violation('ebnf', 'definition %d is %s, expected %s' % (i + 1, x, y), files)
        c.evals += len(y[1])
    n = len(re.findall(r'/\*empty\*/', re.sub(r"'(?:[^'\\\n]|\\.)*'|\"(?:[^\"\\\n]|\\.)*\"", '', txt)))
    if n != sum(1 for _, x in g.rules if not x):
        return c.violation('ebnf', '%d alternatives marked empty' % n, files)
    c.count('mid-rule actions', mids)
    c.count('rules', len(g.rules))
    c.saw(text)
