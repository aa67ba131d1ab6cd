"""L05: destructors."""
import random
from .. import env, gen, le, lsim, lchk

TECH = 'runtime event monitor: every destructor call of the generated parser (ASan/UBSan) compared with a model that accounts for each value'
NOTE = ('Held on the executions observed: %destructor, %token_destructor and %default_destructor over values of several types, in reductions, '
        'error recovery, stack overflow, parse failure, parsers freed early and parsers used again.')
TOOLS = ['lemon-san']
RULE = ('one evaluation = one sequence of tokens and ends of input fed to a generated parser with random destructors (complete, damaged, abandoned, '
        'overflowing or followed by another parse), its complete event log compared with the model, which passes every pushed value to exactly one '
        'action or destructor; distinct nontrivial = distinct (grammar, declarations, input) with at least one destructor call')
ASSUMES = ['the reference automaton and run model (vf/lr.py, vf/lsim.py)', 'the value of the accepted start symbol is not destroyed (its rule can do that)']


def plan(ctx):
    k = 6 if ctx.thorough else 1
    out = [['d', i] for i in range(260 * k)]
    random.Random(ctx.seed).shuffle(out)
    return out


def case(ctx, c):
    rng = c.rng
    S = lchk.err_setup(rng)
    if not S:
        return
    g, a, v, t, f, ins = S
    lsim.randomize(rng, g, f)
    if not f.tdest and not f.ddest:
        f.tdest = True
        lsim.randomize(random.Random(rng.random()), g, f)
    f.noerr = g.err is None and rng.random() < 0.15
    f.stack = rng.choice([None, None, 0, 3, 4, 5, 7, 10])
    order = list(range(1, g.T))
    rng.shuffle(order)
    opts = [o for o in ('-c', '-l', '-r', '-q') if rng.random() < 0.12]
    files = lchk.build(c, g, f, rng, t, opts, order)
    if files is None:
        return
    sim = lsim.LSim(v, t, f, '-c' not in opts, order)
    lchk.compare(c, sim, lchk.sequences(rng, ins), files, 'lemon ' + ' '.join(opts), 'destructors', g, f,
                 interesting=lambda m: any(e[0] == 'd' for e in m))
