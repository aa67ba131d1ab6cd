"""L03: lemon's options never change what the parser does."""
import os
import random
import re
import shutil
from .. import env, gen, le, by, lsim, lchk
from . import l08
from ..lr import LALR, byacc_table

TECH = 'differential runtime monitor: event logs of parsers generated with and without each option (ASan/UBSan) compared with each other and with a model'
NOTE = ('Held on the executions observed. The logs of all builds of one grammar must be identical; with -c they must be those of the model without default reductions, '
        'and identical on inputs without a syntax error.')
TOOLS = ['lemon-san']
RULE = ('one evaluation = one token sequence parsed by a parser generated with an option set, its event log (actions, values, token codes, callbacks, destructors) compared with '
        'the log of the parser generated without options; distinct nontrivial = distinct (grammar, option set, input) of at least one token')
ASSUMES = ['makeheaders is not available: with -m the file is compiled with INTERFACE defined and an empty header in the place of the one makeheaders would write']


def plan(ctx):
    k = 6 if ctx.thorough else 1
    out = [['err', i] for i in range(32 * k)] + [['plain', i] for i in range(26 * k)] + [['match', i] for i in range(30 * k)]
    random.Random(ctx.seed).shuffle(out)
    return out


OPTS = ['-c', '-r', '-l', '-m', '-q', '-s', '-p', '-d', '-T', '-b', '-S', '-D', '-I', '-O2', '-Wall', '-x']


def case(ctx, c):
    rng = c.rng
    if c.spec[0] == 'match':
        S = l08.make(rng, rng.choice(['fb', 'wild', 'class', 'all']))
        if not S:
            return
        g, f, (a, v, t), g0 = S
        real = [x for x in range(1, g.T) if x not in f.classes]
        ins = []
        for _ in range(60):
            x = g.sentence(rng, rng.choice([3, 8, 20, 40]))
            if x is None or len(x) > 90:
                continue
            x = [rng.choice(f.classes[y][1]) if y in f.classes else y for y in x if y != g.err]
            ins.append(x)
            y = list(x)
            for _ in range(rng.randint(1, 3)):
                y.insert(rng.randint(0, len(y)), rng.choice(real))
            ins.append(y)
    else:
        S = lchk.err_setup(rng, c.spec[0] == 'err')
        if not S:
            return
        g, a, v, t, f, ins = S
        ins = rng.sample(ins, min(len(ins), 110))
    lsim.randomize(rng, g, f)
    f.stack = rng.choice([None, 0, 6, 12, 40])
    f.peak = rng.random() < 0.3
    order = list(range(1, g.T))
    rng.shuffle(order)
    files = lchk.build(c, g, f, rng, t, [], order)
    if files is None:
        return
    text = files['g.y']
    sim = lsim.LSim(v, t, f, True, [x for x in order if x not in f.classes])
    simc = lsim.LSim(v, t, f, False, [x for x in order if x not in f.classes])
    seqs = []
    for x in lchk.sequences(rng, ins):
        try:
            sim.run(x)
            simc.run(x)
            seqs.append(x)
        except lsim.Loop:
            pass
    if not seqs:
        return
    base = by.drive(c, './p', seqs, 'lemon', files)
    if base is None:
        return
    c.count('grammars')
    n = 3
    todo = []
    for j in range(n):
        todo.append(rng.sample(OPTS[:12], rng.choice([1, 1, 2, 3])))
    for sel in todo:
        d = os.path.join(c.dir, 'v')
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d + '/out')
        with open(d + '/g.y', 'w') as fh:
            fh.write(text)
        o = []
        where = d
        tmpl = ['-T' + ctx.tool('lempar.c')]
        for x in sel:
            if x == '-d':
                o.append('-d' + 'out')
                where = d + '/out'
            elif x == '-T':
                shutil.copy(ctx.tool('lempar.c'), d + '/other.tmpl')
                tmpl = ['-Tother.tmpl']
            elif x == '-D':
                o.append('-DUNUSED_%d' % rng.randint(0, 9))
            else:
                o.append(x)
        rng.shuffle(o)
        o = tmpl + o
        r = env.run([ctx.tool('lemon-san')] + o + ['g.y'], cwd=d)
        fl = dict(files)
        fl['cmd'] = 'lemon ' + ' '.join(o) + ' g.y\n'
        fl['stderr'] = r.err
        if r.slow:
            c.inconclusive('generator slow')
            return
        if r.bad() or r.rc:
            c.violation('generator', 'lemon %s: %s (exit %s)\n%s' % (o, r.bad() or 'fails', r.rc, r.etext[:1500]), fl)
            return
        have = set(os.listdir(where)) - {'g.y', 'other.tmpl', 'out'}
        want = {'g.c'}
        if '-q' not in sel:
            want.add('g.out')
        if '-m' not in sel:
            want.add('g.h')
        if '-S' in sel:
            want.add('g.sql')
        c.evals += 1
        if have != want:
            c.violation('files', 'lemon %s wrote %s, documented %s' % (' '.join(o), sorted(have), sorted(want)), fl)
            return
        src = open(where + '/g.c', encoding='latin-1').read()
        if '-l' in sel and re.search(r'(?m)^\s*#\s*line', src):
            c.violation('l-lines', 'lemon %s: #line directives with -l' % ' '.join(o), fl)
            return
        cf = []
        if '-m' in sel:
            open(where + '/g.h', 'w').close()
            cf = ['-DINTERFACE=1', '-I' + d]        # the header's name is relative to where lemon ran
        rc, msg = env.compile_c(['g.c'], 'p', cwd=where, flags=cf)
        if rc:
            c.violation('compile', 'lemon %s: the generated parser does not compile:\n%s' % (o, msg[:2000]), fl)
            return
        r = env.run(['./p'], by.feed(seqs), cwd=where, cpu=25)
        if r.slow:
            c.inconclusive('driver slow')
            return
        lines = [x for x in r.text.split('\n') if ' =' in x]
        if r.bad() or r.rc or len(lines) != len(seqs):
            c.violation('parser-run', 'lemon %s: %s (exit %s)\n%s' % (o, r.bad(), r.rc, r.etext[:2000]), fl)
            return
        key = tuple(sorted(sel))
        for x in sel:
            c.count('option ' + x)
        for x, b, l in zip(seqs, base, lines):
            c.evals += 1
            if '-c' in sel and l != b:
                m = simc.run(x)
                k = lsim.same(m, lchk.clean(l.split()))
                bad = k is not None or not any(e[0] == 'e' or e == 'f' for e in m[:-1] if e[0] != 't')
                if k is None and not any(e[0] == 'e' for e in m):
                    # no syntax error: the abandoned part may have reduced less
                    bad = lchk.clean(l.split())[:m.index('f')] != lchk.clean(b.split())[:len(m[:m.index('f')])]
            else:
                bad = l != b
            if bad:
                fl['input'] = by.feed([x])
                c.violation('differs', 'lemon %s: parser behaves differently\n%s\n%s\ninput: %s\nwithout: %s\nwith:    %s' % (
                    ' '.join(o), g.text(), f.describe(), ' '.join(g.name(y) if y >= 0 else '.' for y in x), b[:1200], l[:1200]), fl)
                return
            if x:
                c.saw(g.rules, key, tuple(x))
        c.sample(dict(grammar=g.text()[:400], options=' '.join(o), input=[g.name(y) if y >= 0 else '.' for y in seqs[-1]], events=lines[-1][:300]))
