"""L06: lemon's error recovery."""
import random
from .. import env, gen, le, lsim, lchk

TECH = 'runtime event monitor: callbacks, actions and discarded tokens of generated parsers (ASan/UBSan) compared with a model of the documented recovery'
NOTE = 'Held on the executions observed: with the error symbol, without it, and with YYNOERRORRECOVERY; parsers used again after a failure.'
TOOLS = ['lemon-san']
RULE = ('one evaluation = one damaged token sequence (or several in a row) fed to a generated parser, its complete event log (per call: actions, %syntax_error '
        'with token and value, %parse_failure, %parse_accept, token destructors) compared with the model; distinct nontrivial = distinct (grammar, input) with a syntax error')
ASSUMES = ['the reference automaton and run model (vf/lr.py, vf/lsim.py)',
           'with the error symbol errors stay unreported until four tokens have been shifted (the code), without it three']


def plan(ctx):
    k = 6 if ctx.thorough else 1
    out = [['err', i] for i in range(190 * k)] + [['plain', i] for i in range(60 * k)] + [['none', i] for i in range(30 * k)]
    random.Random(ctx.seed).shuffle(out)
    return out


def case(ctx, c):
    rng = c.rng
    kind = c.spec[0]
    S = lchk.err_setup(rng, kind == 'err')
    if not S:
        return
    g, a, v, t, f, ins = S
    if rng.random() < 0.5:
        lsim.randomize(rng, g, f, dest=False)
    else:
        for i, (l, r) in enumerate(g.rules):
            f.labels[i] = {j for j, x in enumerate(r) if x != g.err}
            f.lmode[i] = 'own'
    f.tdest = rng.random() < 0.8      # discarded tokens become visible
    f.noerr = kind == 'none'
    f.stack = 0
    order = list(range(1, g.T))
    rng.shuffle(order)
    opts = [o for o in ('-c', '-l', '-r', '-q') if rng.random() < 0.12]
    files = lchk.build(c, g, f, rng, t, opts, order)
    if files is None:
        return
    sim = lsim.LSim(v, t, f, '-c' not in opts, order)
    lchk.compare(c, sim, lchk.sequences(rng, ins), files, 'lemon ' + ' '.join(opts), 'recovery', g, f,
                 interesting=lambda m: any(e[0] == 'e' for e in m))
