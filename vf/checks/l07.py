"""L07: lemon's parser stacks, and parsers side by side."""
import random
from .. import env, gen, le, by, lsim, lchk

TECH = 'ASan/UBSan/TSan plus runtime event monitor: stack limits, failing allocators, deep nesting, interleaved and concurrent parsers compared with a model'
NOTE = ('Held on the executions observed. Allocation failures are injected at every small count; thread runs are watched by ThreadSanitizer while 4 threads '
        'parse the same inputs at different offsets; the schedules are the ones the OS produced.')
TOOLS = ['lemon-san']
RULE = ('one evaluation = one token sequence parsed under a stack limit, with failing allocations, interleaved with other parsers or in one of four threads, '
        'its event log (with the reported peak) compared with the model; distinct nontrivial = distinct (grammar, declarations, input) that overflowed, ran out of memory, '
        'nested more than 50 deep or shared the run with other parsers')
ASSUMES = ['the run model (vf/lsim.py): a stack of n entries holds the start entry and n-1 symbols',
           'the token passed in the call that overflows is not destroyed (only values on the stack are)']

DEEP = ['s: A s B | C', 'l: X l | X', 's: A s n B | C ; n: ', 's: p s ; s: C ; p: A | B', 'e: e PL t | t ; t: LP e RP | N', 's: n A s | B ; n: ',
        's: A A A s B | C', 's: LP l RP | N ; l: | l s', 's: n m A s | B ; n: ; m: C | ']


def plan(ctx):
    k = 6 if ctx.thorough else 1
    out = ([['size', i] for i in range(100 * k)] + [['deep', i] for i in range(45 * k)] + [['alloc', i] for i in range(70 * k)]
           + [['inter', i] for i in range(25 * k)] + [['tsan', i] for i in range(10 * k)])
    random.Random(ctx.seed).shuffle(out)
    return out


def deep_inputs(rng, I, a, t, g, depth):
    out = []
    for _ in range(8):
        x = g.sentence(rng, rng.choice([10, depth // 4, depth // 2, depth, depth]))
        if x is None or len(x) > 6 * depth:
            continue
        out.append(x)
        if rng.random() < 0.5 and x:
            out.append(I.mutate(x, g.T)[:3 * depth])
    for _ in range(6):
        # a prefix repeated: opens without closing
        x = g.sentence(rng, 12)
        if x:
            k = rng.randint(1, min(4, len(x)))
            out.append((x[:k] * (depth // k + 2))[:rng.randint(1, depth + 30)])
    return out


def case(ctx, c):
    rng = c.rng
    kind = c.spec[0]
    f = lsim.Full()
    if kind == 'deep' or kind in ('size', 'alloc') and rng.random() < 0.4:
        for _ in range(20):
            g0 = gen.g_text(rng.choice(DEEP))
            g = le.start_ok(g0)
            P = lchk.prepare(g, f)
            if P:
                break
        a, v, t = P
        from ..lr import LALR, byacc_table
        a0 = LALR(g0)
        I = gen.Inputs(g0, a0, rng)
        ins = I.many(byacc_table(a0), 8, 10, 4, 40, 15, 60)
        d = rng.choice([120, 300, 700]) if kind == 'deep' else rng.choice([8, 25, 60, 130])
        if kind == 'deep' and rng.random() < 0.3:
            d = rng.choice([1500, 3500])
        ins = ins[:20] + deep_inputs(rng, I, a0, t, g0, d)
        # deterministic nests
        for txt in range(3):
            n = rng.choice([d // 2, d - 2, d, d + 1])
            x = g0.sentence(rng, n)
            if x:
                ins.append(x[:4000])
    else:
        S = lchk.err_setup(rng)
        if not S:
            return
        g, a, v, t, f, ins = S
        d = 0
        if kind in ('inter', 'tsan'):
            ins = rng.sample(ins, min(len(ins), 60))
    lsim.randomize(rng, g, f, big=d > 150)
    f.peak = rng.random() < 0.5
    if kind == 'size':
        f.stack = rng.choice([2, 3, 4, 5, 6, 8, 10, 16, 25])
    elif kind == 'deep':
        f.stack = rng.choice([None, 0, 0, 0, 50, 101, 200, 500, 2000])
    elif kind == 'alloc':
        f.stack = 0
    else:
        f.stack = rng.choice([None, 0, 0, 4, 7, 12])
    order = list(range(1, g.T))
    rng.shuffle(order)
    opts = [o for o in ('-c', '-l') if rng.random() < 0.12]
    fl = []
    if kind == 'alloc':
        heal = rng.random() < 0.4
        fl = ['-DVF_ALLOC=%d' % rng.choice([0, 0, 1] if heal else [0, 1, 1, 1, 2, 3]), '-DVF_HEAL=%d' % heal]
    if kind == 'tsan':
        fl = ['-DVF_THREADS', '-pthread', '-fsanitize=thread', '-g1']
    files = lchk.build(c, g, f, rng, t, opts, order, cflags=fl, san=kind != 'tsan')
    if files is None:
        return
    files['flags'] = ' '.join(fl)
    sim = lsim.LSim(v, t, f, '-c' not in opts, order)
    seqs = lchk.sequences(rng, ins, join=0.3 if kind != 'deep' else 0.1)
    seqs = [x for x in seqs if not endless(sim, x)]
    what = 'lemon %s [%s, %%stack_size %s]' % (' '.join(opts), kind, f.stack)
    if kind in ('size', 'deep', 'alloc'):
        def hot(m):
            return any(e[0] in 'Om' for e in m) or sim.peak > 50
        r = lchk.compare(c, sim, seqs, files, what, kind, g, f, interesting=hot, log=kind == 'alloc')
        return
    if not seqs:
        return
    if kind == 'inter':
        for seed in (1, rng.randrange(10 ** 6)):
            r = env.run(['./p', str(seed)], by.feed(seqs), cwd=c.dir, cpu=25)
            lines = finish(c, r, len(seqs), files, what)
            if lines is None:
                return
            c.count('interleaved parsers', len(seqs))
            if not lchk.compare(c, sim, seqs, files, what, kind, g, f, lines=lines):
                return
        return
    r = env.run(['./p'], by.feed(seqs), cwd=c.dir, cpu=60, env={'TSAN_OPTIONS': 'exitcode=66:halt_on_error=0'})
    lines = finish(c, r, 4 * len(seqs), files, what)
    if lines is None:
        return
    c.count('threads', 4)
    for k in range(4):
        n = len(seqs)
        want = [seqs[(i + 7 * k) % n] for i in range(n)]
        if not lchk.compare(c, sim, want, files, what + ' thread %d' % k, kind, g, f, lines=lines[k * n:(k + 1) * n]):
            return


def endless(sim, x):
    try:
        sim.run(x)
        return False
    except lsim.Loop:
        return True


def finish(c, r, n, files, what):
    if r.slow:
        c.inconclusive('driver slow')
        return None
    lines = [x for x in r.text.split('\n') if ' =' in x]
    race = 'ThreadSanitizer' in r.etext
    if race and 'data race' not in r.etext and not lines:
        c.inconclusive('ThreadSanitizer cannot run here: ' + r.etext[:300])
        return None
    if r.bad() or race or r.rc or len(lines) != n:
        c.violation('race' if race else 'parser-run', '%s: generated parser: %s (exit %s, %d of %d lines)\n%s' % (what, r.bad(), r.rc, len(lines), n, r.etext[:2500]), files)
        return None
    return lines
