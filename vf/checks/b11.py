"""B11: -n writes an equivalent grammar."""
import random
from .. import by, bplain

TECH = 'runtime output monitor: the -n file of the sanitized generator is read by an independent reader and compared with the grammar that was written, then run through the generator again and its conflicts and SQL export compared with the original without actions'
NOTE = 'Held on the runs observed; for each grammar the comparison of rules, precedences, tokens and start symbol is complete, which determines the language.'
TOOLS = ['byacc-san', 'nbyacc-san']
RULE = 'one evaluation = one rule, token or precedence of a -n file compared with the grammar; distinct nontrivial = distinct (grammar, spelling) compared'
ASSUMES = ['the reader of plain grammars (vf/bplain.py)']


def plan(ctx):
    out = [[i] for i in range(600 * (10 if ctx.thorough else 1))]
    random.Random(ctx.seed).shuffle(out)
    return out


def case(ctx, c):
    rng = c.rng
    g = bplain.grammar(rng)
    nm = bplain.Names(g, rng)
    variant = 'byacc' if rng.random() < 0.6 else 'nbyacc'
    text, bare, mids = bplain.emit(g, nm, rng, btyacc=variant == 'byacc')
    mode = rng.choice(['', '', '', '', '-u', '-z'])
    ml = [mode] if mode else []
    c.write('g.y', text.encode('latin-1'))
    c.write('bare.y', bare.encode('latin-1'))
    opts = ['-n'] + ml + [o for o in ('-d', '-v', '-l', '-t') if rng.random() < 0.1]
    r = by.run_byacc(c, variant, opts)
    files = {'g.y': text.encode('latin-1'), 'bare.y': bare.encode('latin-1'), 'cmd': '%s %s g.y\n' % (variant, ' '.join(opts)), 'stderr': r.err}
    if r.slow:
        return c.inconclusive('generator slow')
    if r.bad() or r.rc:
        return c.violation('generator', '%s %s: %s (exit %s)\n%s' % (variant, opts, r.bad() or 'fails', r.rc, r.etext[:500]), files)
    naked = open(c.path('y.yn'), 'rb').read()
    files['y.yn'] = naked
    want = bplain.model(g, nm)
    try:
        got = bplain.parse_plain(naked.decode('latin-1'))
    except bplain.Bad as e:
        return c.violation('naked', 'the -n file: %s' % e, files)
    c.evals += len(got[0]) + len(got[1]) + len(got[2])
    msg = bplain.diff(got, want, mode)
    if msg:
        return c.violation('naked', msg, files)
    r1 = by.run_byacc(c, variant, ['-S', '-n', '-b', 'v'] + ml, 'y.yn')
    r0 = by.run_byacc(c, variant, ['-b', 'w'] + ml, 'bare.y')
    if r1.slow or r0.slow:
        return c.inconclusive('generator slow')
    if r1.bad() or r1.rc or r0.bad() or r0.rc:
        return c.violation('naked', 'byacc on the -n file: exit %s, %s (on the grammar without actions: %s)\n%s' % (r1.rc, r1.bad(), r0.rc, r1.etext[:500]), files)
    if by.conflicts(r1.etext) != by.conflicts(r0.etext):
        return c.violation('conflicts', 'the -n file has conflicts %s, the grammar without actions %s' % (by.conflicts(r1.etext), by.conflicts(r0.etext)), files)
    got2 = bplain.parse_sql(bplain.load_sql(open(c.path('v.sql'), 'rb').read().decode('latin-1')))
    msg = bplain.diff(got2, want, mode)
    if msg:
        return c.violation('naked', 'exported -n file: ' + msg, files)
    # naked of naked is the same grammar
    msg = bplain.diff(bplain.parse_plain(open(c.path('v.yn'), 'rb').read().decode('latin-1')), want, mode)
    if msg:
        return c.violation('naked', '-n of the -n file: ' + msg, files)
    c.count('mid-rule actions', mids)
    c.count('rules', len(g.rules))
    c.count('grammars with conflicts', int(by.conflicts(r1.etext) != (0, 0)))
    c.saw(text)

