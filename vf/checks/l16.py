"""L16: lemon never reports success with missing or truncated output."""
import os
import random
import time
from .. import env, gen, le, iofault

TECH = 'fault injection with runtime monitoring: every fopen, read, write and close of the real lemon (ASan/UBSan) is logged and made to fail in turn; /dev/full, file size limits, unusable paths'
NOTE = ('Held on the executions observed. Each operation of a fault-free run is failed once (sampled beyond the budget); the exit status, message and files left are judged against the '
        'fault-free run.')
TOOLS = ['lemon-san']
RULE = ('one evaluation = one run of lemon with one injected fault (or unusable path, size limit, full standard output), judged by exit status, message, output files and untouched '
        'files; distinct nontrivial = distinct (grammar, options, fault) in which the fault happened')
ASSUMES = ['stdio on a fopencookie stream reports errors as it does on a file', 'a failing close of a file only read is no error', 'the old .h file is only compared: failing to read it is no error']


def setup(ctx):
    iofault.prepare(ctx)


def plan(ctx):
    k = 8 if ctx.thorough else 1
    out = [['inject', i] for i in range(80 * k)] + [['paths', i] for i in range(14 * k)] + [['limit', i] for i in range(14 * k)] + [['stdout', i] for i in range(10 * k)]
    random.Random(ctx.seed).shuffle(out)
    return out


def source(rng):
    g = None
    while g is None:
        g = gen.conflict_free(rng, rng.choice(['tiny', 'small', 'medium', 'expr', 'kw', 'large']))
    g = le.start_ok(g)
    sp = le.Spell(g)
    out = ['%%token %s.' % ' '.join(sp.tok[t] for t in range(1, g.T)), '%start_symbol ' + sp.nt[g.start]]
    if rng.random() < 0.7:
        out += ['%include {'] + ['int inc_%d;' % i for i in range(rng.choice([1, 400]))] + ['}']
    if rng.random() < 0.5:
        out += ['%code {'] + ['int code_%d;' % i for i in range(rng.choice([1, 600]))] + ['}']
    for j, (l, r) in enumerate(g.rules):
        out.append('%s ::= %s. %s' % (sp.nt[l], ' '.join(sp.sym(x) for x in r), rng.choice(['', '{ f(%d); }' % j, '{ g("%s"); }' % ('a' * rng.choice([3, 300])), '{ h();\n  i();\n}'])))
    return '\n'.join(out) + '\n'


def case(ctx, c):
    rng = c.rng
    text = source(rng).encode('latin-1')
    o = rng.sample(['-c', '-l', '-m', '-p', '-q', '-r', '-s', '-S', '-g', '-y'], rng.choice([0, 1, 2, 4]))
    kind = c.spec[0]
    if kind == 'stdout':
        o = [x for x in o if x not in ('-g', '-y', '-s')] + [rng.choice(['-g', '-y', '-s', '-Y', '-E'])]
    src = rng.choice(['g.y', 'in/g.y', 'g'])
    tmpl = rng.choice(['-T', '-T', 'lt', 'cwd'])
    files = {src: text, 'keep.txt': b'keep\n', 'c': b'z', 'g.c.keep': b'x', 'out/keep': b'w'}
    tp = open(ctx.tool('lempar.c'), 'rb').read()
    if tmpl == '-T':
        files['tmpl/t.c'] = tp
        o.append('-Ttmpl/t.c')
    elif tmpl == 'lt':
        files[(src[:-2] if src.endswith('.y') else src) + '.lt'] = tp
    else:
        files['lempar.c'] = tp
    keep = dict(files)
    d = ''
    if rng.random() < 0.4:
        d = 'out/'
        o.append('-dout')
    elif '/' in src:
        d = os.path.dirname(src) + '/'
    if rng.random() < 0.5:
        files[d + 'g.c'] = b'old content\n' * 20000
        if '-S' in o:
            files[d + 'g.sql'] = b'old sql\n' * 20000
        if '-m' not in o:
            files[d + 'g.h'] = b'#define OLD 1\n' * 2000
    rng.shuffle(o)
    W = iofault.Work(ctx, c, 'w', files, ['in', 'out', 'tmpl'])
    exe = ctx.tool('lemon-san')
    cmd = [exe] + o + [src]
    fl = {'g.y': text, 'cmd': 'lemon %s %s\n' % (' '.join(o), src)}
    W.fresh()
    buf = rng.choice([None, 256, 1024])
    t0 = time.time()
    r, log = W.run(cmd, buf=buf)
    t0 = time.time() - t0
    base = W.state()
    if r.bad() or r.rc:
        if r.bad():
            c.violation('crash', 'lemon: %s\n%s' % (r.bad(), r.etext[:1500]), fl)
        else:
            c.violation('fails', 'lemon %s fails (exit %d): %s' % (' '.join(o), r.rc, r.etext[:600]), fl)
        return
    for f, t in keep.items():
        if base.get(f) != t:
            c.violation('other-file', 'lemon %s changed %s' % (' '.join(o), f), fl)
            return
    out0 = r.out
    W.fresh()
    r, _ = W.run(cmd, inject=False)
    if r.rc or W.state() != base or r.out != out0:
        raise env.HarnessError('the injector changes the output')
    c.count('fault-free runs')
    outs = [f for f in base if base[f] != files.get(f)]
    if kind == 'inject':
        n = {'open': 0, 'read': 0, 'write': 0, 'close': 0}
        todo = []
        for e in log:
            op = e[0]
            if op in ('openr', 'openw', 'noopen'):
                op = 'open'
            n[op] += 1
            if e[0] == 'noopen' or op == 'close' and e[2] != '1' or e[0] in ('openr', 'read') and e[1].endswith('g.h'):
                continue
            todo.append((op, n[op], e))
        budget = 90 if ctx.thorough else max(8, min(26, int(6 / t0)))
        if len(todo) > budget:
            few = [x for x in todo if x[0] not in ('read', 'write')]
            seen = {}
            for x in todo:
                if x[0] in ('read', 'write'):
                    seen.setdefault((x[0], x[2][1]), []).append(x)
            one = [rng.choice(v) for v in seen.values()] + [v[-1] for v in seen.values()]
            rest = rng.sample(todo, min(len(todo), 8))
            todo = list({(x[0], x[1]): x for x in one + rest + few}.values())
            if len(todo) > budget:
                todo = rng.sample(todo, budget)
        for op, k, e in todo:
            W.fresh()
            p = '%s:%d:%d:%d' % (op, k, rng.choice(iofault.ERR[op]), rng.random() < 0.5)
            r, lg = W.run(cmd, plan=p, buf=buf)
            c.evals += 1
            if not [x for x in lg if x[3:] == ['FAIL']]:
                c.count('fault not reached')
                continue
            c.count('faults in ' + op)
            c.saw(text, o, p)
            if not iofault.judge(c, W, r, base, keep, 'lemon %s %s with a failing %s of %s (%s)' % (' '.join(o), src, op, e[1], p), fl, must=True):
                return
        c.sample(dict(options=o, operations=dict(n), files={f: len(base[f]) for f in outs}))
    elif kind == 'limit':
        top = max(len(base[f]) for f in outs)
        for lim in [700, top - 1, top] + [rng.randint(700, max(700, top)) for _ in range(10)]:
            W.fresh()
            r, _ = W.run(cmd, inject=False, limit=lim)
            c.evals += 1
            c.saw(text, o, lim)
            c.count('size limits')
            if not iofault.judge(c, W, r, base, keep, 'lemon %s %s with files limited to %d bytes' % (' '.join(o), src, lim), fl, must=lim < top):
                return
    elif kind == 'stdout':
        e = 'exec "$@" > /dev/full'
        W.fresh()
        r, _ = W.run(['sh', '-c', e, 'sh'] + cmd, inject=False)
        c.evals += 1
        c.count('full standard output')
        c.saw(text, o, 'full')
        iofault.judge(c, W, r, base, keep, 'lemon %s %s with its standard output on a full device' % (' '.join(o), src), fl, must=bool(out0))
    else:
        for f in outs:
            for how in ('full', 'dir', 'dangling'):
                W.fresh()
                p = W.dir + '/' + f
                if os.path.exists(p):
                    os.unlink(p)
                if how == 'full':
                    os.symlink('/dev/full', p)
                elif how == 'dir':
                    os.mkdir(p)
                else:
                    os.symlink('nowhere/file', p)
                r, _ = W.run(cmd, inject=False)
                c.evals += 1
                c.saw(text, o, f, how)
                c.count('output path: ' + how)
                b = dict(base)
                b[f] = None
                if how == 'full' and f.endswith('.h'):
                    continue                     # the old header is read first: endless for a device
                if not iofault.judge(c, W, r, b, keep, 'lemon %s %s with %s %s' % (' '.join(o), src, f, how), fl, must=True):
                    return
        cases = [('missing input', cmd[:-1] + ['nothing.y']), ('directory as input', cmd[:-1] + ['in']), ('missing directory', [exe] + [x for x in o if not x.startswith('-d')] + ['-dmissing/x', src])]
        if tmpl == '-T':
            cases += [('missing template', [x if not x.startswith('-T') else '-Tmissing.c' for x in cmd]), ('directory as template', [x if not x.startswith('-T') else '-Ttmpl' for x in cmd])]
        for how, cm in cases:
            W.fresh()
            r, _ = W.run(cm, inject=False)
            c.evals += 1
            c.saw(text, o, how)
            c.count(how)
            if not iofault.judge(c, W, r, base, keep, 'lemon %s: %s' % (' '.join(cm[1:]), how), fl, must=True):
                return
        if tmpl != '-T':
            W.fresh()
            for f in files:
                if f.endswith('.lt') or f == 'lempar.c':
                    os.unlink(W.dir + '/' + f)
            os.makedirs(W.dir + '/bin')
            # beside the executable there is a template as well: use a name without one
            r, _ = W.run(['env', 'PATH=/nonexistent', exe] if False else ['sh', '-c', 'ln -s "$1" bin/l; shift; exec bin/l "$@"', 'sh'] + cmd, inject=False)
            os.unlink(W.dir + '/bin/l')
            os.rmdir(W.dir + '/bin')
            c.evals += 1
            c.count('no template found')
            iofault.judge(c, W, r, base, {k: v for k, v in keep.items() if not k.endswith('.lt') and k != 'lempar.c'},
                          'lemon %s %s without any template' % (' '.join(o), src), fl, must=True)
