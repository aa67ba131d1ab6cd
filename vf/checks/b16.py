"""B16: byacc never reports success with missing or truncated output."""
import os
import random
import re
import shutil
import signal
import subprocess
import time
from .. import env, gen, by, iofault
from ..lr import Grammar

TECH = 'fault injection with runtime monitoring: every fopen, mkstemp, read, write and close of the real byacc (ASan/UBSan) is logged and made to fail in turn; /dev/full, file size limits, unusable paths and signals'
NOTE = ('Held on the executions observed. Each operation of a fault-free run is failed once (sampled beyond the budget); the exit status, message, files and temporary files left are judged '
        'against the fault-free run.')
TOOLS = ['byacc-san', 'byacc']
RULE = ('one evaluation = one run of byacc with one injected fault (or unusable path, size limit, signal), judged by exit status, message, output files, temporary files and untouched files; '
        'distinct nontrivial = distinct (grammar, options, fault) in which the fault happened')
ASSUMES = ['stdio on a fopencookie stream reports errors as it does on a file', 'a failing close of a file only read is no error']


def setup(ctx):
    iofault.prepare(ctx)


def plan(ctx):
    k = 8 if ctx.thorough else 1
    out = [['inject', i] for i in range(80 * k)] + [['paths', i] for i in range(10 * k)] + [['limit', i] for i in range(12 * k)] + [['signal', i] for i in range(8 * k)]
    random.Random(ctx.seed).shuffle(out)
    return out


def source(rng):
    """A grammar text with prologue, union, actions and a third section."""
    g = None
    while g is None:
        g = gen.conflict_free(rng, rng.choice(['tiny', 'small', 'medium', 'expr', 'kw', 'large']))
    sp = by.Spell(g, rng)
    out = ['%{', '/* prologue %s */' % ('p' * rng.choice([0, 10, 6000])), '%}']
    if rng.random() < 0.6:
        out += ['%union {', '  int i;'] + ['  char *field%d;' % i for i in range(rng.choice([1, 5, 200]))] + ['}']
    t = by.emit_plain(g, sp, rng)
    i = t.index('%%')
    decl = [l for l in t[:i].split('\n') if l.startswith('%token') or l.startswith('%start') or l.startswith('%left')]
    out += decl + ['%%']
    for j, (l, r) in enumerate(g.rules):
        out.append('%s : %s %s;' % (sp.sym(l), ' '.join(sp.sym(x) for x in r), rng.choice(['', '{ f(%d); }' % j, '{ g("%s"); }' % ('a' * rng.choice([3, 300])), '{ h();\n  i();\n}'])))
    if rng.random() < 0.7:
        out += ['%%'] + ['int third_%d;' % i for i in range(rng.choice([1, 10, 900]))]
    return '\n'.join(out) + '\n'


FLAGS = ['-d', '-v', '-g', '-e', '-E', '-S', '-n', '-r', '-i', '-t', '-l', '-B', '-P', '-L', '-s']


def options(rng):
    o = rng.sample(FLAGS, rng.choice([0, 1, 2, 4, 8, 12]))
    if '-n' in o and rng.random() < 0.3:
        o[o.index('-n')] = '-N'
    k = rng.random()
    if k < 0.2:
        o += ['-o', rng.choice(['out.c', 'out/o.c', 'res.tab.c', 'plain'])]
    elif k < 0.4:
        o += ['-b', rng.choice(['out/pre', 'q'])]
    if '-d' not in o and rng.random() < 0.2:
        o += ['-H', 'out/defs.h']
    return o


def case(ctx, c):
    rng = c.rng
    text = source(rng).encode('latin-1')
    o = options(rng)
    src = rng.choice(['g.y', 'out/g.y'])
    keep = {'keep.txt': b'keep\n', 'y.tab.keep': b'x', 'tab.c': b'y'}
    files = dict(keep)
    files[src] = text
    files['y.tab.c'] = b'old content\n' * 20000
    if '-o' in o or '-b' in o:
        keep['y.tab.c'] = files['y.tab.c']
    keep[src] = text
    W = iofault.Work(ctx, c, 'w', files, ['out'])
    exe = ctx.tool('byacc-san')
    cmd = [exe] + o + [src]
    fl = {'g.y': text, 'cmd': 'byacc %s %s\n' % (' '.join(o), src)}
    W.fresh()
    buf = rng.choice([None, 256, 1024])
    t0 = time.time()
    r, log = W.run(cmd, buf=buf)
    t0 = time.time() - t0
    base = W.state()
    if r.bad() or r.rc:
        if r.bad():
            c.violation('crash', 'byacc: %s\n%s' % (r.bad(), r.etext[:1500]), fl)
        else:
            c.violation('fails', 'byacc %s fails (exit %d): %s' % (' '.join(o), r.rc, r.etext[:600]), fl)
        return
    if any(f.startswith('tmp/') for f in base):
        c.violation('temporary', 'byacc %s leaves temporary files: %s' % (' '.join(o), sorted(base)), fl)
        return
    for f, t in keep.items():
        if base.get(f) != t:
            c.violation('other-file', 'byacc %s changed %s' % (' '.join(o), f), fl)
            return
    # the streams of the injector must not change what is written
    W.fresh()
    r, _ = W.run(cmd, inject=False)
    if r.rc or W.state() != base:
        raise env.HarnessError('the injector changes the output')
    c.count('fault-free runs')
    outs = [f for f in base if base[f] != files.get(f)]
    kind = c.spec[0]
    if kind == 'inject':
        n = {'open': 0, 'fdopen': 0, 'mkstemp': 0, 'read': 0, 'write': 0, 'close': 0}
        todo = []
        for e in log:
            op = e[0]
            if op in ('openr', 'openw'):
                op = 'open'
            if op == 'noopen':
                n['open'] += 1
                continue
            n[op] += 1
            if op == 'close' and (e[2] != '1' or e[1] == 'TMP'):
                continue
            todo.append((op, n[op], e))
        budget = 90 if ctx.thorough else max(8, min(26, int(6 / t0)))
        if len(todo) > budget:
            few = [x for x in todo if x[0] not in ('read', 'write')]
            # one write per file at least
            seen = {}
            for x in todo:
                if x[0] in ('read', 'write'):
                    seen.setdefault((x[0], x[2][1]), []).append(x)
            one = [rng.choice(v) for v in seen.values()] + [v[-1] for v in seen.values()]
            rest = rng.sample(todo, min(len(todo), 8))
            todo = list({(x[0], x[1]): x for x in one + rest + few}.values())
            if len(todo) > budget:
                todo = rng.sample(todo, budget)
        for op, k, e in todo:
            W.fresh()
            p = '%s:%d:%d:%d' % (op, k, rng.choice(iofault.ERR[op]), rng.random() < 0.5)
            r, lg = W.run(cmd, plan=p, buf=buf)
            fired = [x for x in lg if x[3:] == ['FAIL']]
            c.evals += 1
            if not fired:
                c.count('fault not reached')
                continue
            c.count('faults in ' + op)
            c.saw(text, o, p)
            w = 'byacc %s %s with a failing %s of %s (%s)' % (' '.join(o), src, op, e[1], p)
            if not iofault.judge(c, W, r, base, keep, w, fl, must=True):
                return
        c.sample(dict(options=o, operations=dict(n), files={f: len(base[f]) for f in outs}))
    elif kind == 'limit':
        top = max(len(base[f]) for f in outs)
        for lim in [700, top - 1, top] + [rng.randint(700, max(700, top)) for _ in range(10)]:
            W.fresh()
            r, _ = W.run(cmd, inject=False, limit=lim)
            c.evals += 1
            c.saw(text, o, lim)
            c.count("size limits")
            if lim < top and b'file too large' in r.err.lower():
                pass
            # temporary files may be larger than any output file
            if not iofault.judge(c, W, r, base, keep, 'byacc %s %s with files limited to %d bytes' % (' '.join(o), src, lim), fl, must=lim < top):
                return
    elif kind == 'paths':
        for f in outs:
            for how in ('full', 'dir', 'dangling'):
                W.fresh()
                p = W.dir + '/' + f
                if os.path.exists(p):
                    os.unlink(p)
                if how == 'full':
                    os.symlink('/dev/full', p)
                elif how == 'dir':
                    os.mkdir(p)
                else:
                    os.symlink('nowhere/file', p)
                r, _ = W.run(cmd, inject=False)
                c.evals += 1
                c.saw(text, o, f, how)
                c.count('output path: ' + how)
                b = dict(base)
                b[f] = None
                st = W.state()
                w = 'byacc %s %s with %s %s' % (' '.join(o), src, f, {'full': 'on a full device', 'dir': 'being a directory', 'dangling': 'in a missing directory'}[how])
                if not iofault.judge(c, W, r, b, {x: y for x, y in keep.items() if x != f}, w, fl, must=True):
                    return
        for how in ('missing', 'directory', 'no-dir', 'removed-out'):
            W.fresh()
            cm = list(cmd)
            if how == 'missing':
                cm[-1] = 'nothing.y'
            elif how == 'directory':
                cm[-1] = 'out'
            elif how == 'no-dir':
                if '-o' in o or '-b' in o:
                    continue
                cm = [exe] + o + ['-b', 'missing/x', src]
            else:
                if '-H' in o or not any(x.startswith('out/') for x in outs) or src.startswith('out/'):
                    continue
                shutil.rmtree(W.dir + '/out')
            r, _ = W.run(cm, inject=False)
            c.evals += 1
            c.saw(text, o, how)
            c.count('input: ' + how)
            if not iofault.judge(c, W, r, base, keep if '-b' in cm and how == 'no-dir' or how == 'removed-out' else {k: v for k, v in keep.items()}, 'byacc %s (%s)' % (' '.join(cm[1:]), how), fl, must=True):
                return
    else:
        signals(ctx, c, rng, W, o, text, fl)


def signals(ctx, c, rng, W, o, text, fl):
    """The signal arrives while byacc waits for the rest of its input."""
    for sig in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
        W.fresh()
        e = dict(env.BASE_ENV)
        e.update(TMPDIR=W.dir + '/tmp', TEMP=W.dir + '/tmp')
        p = subprocess.Popen([ctx.tool('byacc')] + o + ['-'], cwd=W.dir, env=e, stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                             start_new_session=True, preexec_fn=lambda: [signal.signal(x, signal.SIG_DFL) for x in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP)])
        cut = rng.randint(1, len(text) - 1)
        try:
            p.stdin.write(text[:cut])
            p.stdin.flush()
        except BrokenPipeError:
            pass
        t0 = time.time()
        while time.time() - t0 < 20 and len(os.listdir(W.dir + '/tmp')) < 2 and p.poll() is None:
            time.sleep(0.002)
        time.sleep(0.01)
        if p.poll() is not None or not os.listdir(W.dir + '/tmp'):
            p.stdin.close()
            p.wait()
            c.count('signal too late')
            continue
        os.kill(p.pid, sig)
        try:
            rc = p.wait(30)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            c.violation('signal', 'byacc does not end on signal %d' % sig, fl)
            return
        finally:
            try:
                p.stdin.close()
            except BrokenPipeError:
                pass
            p.stderr.close()
        c.evals += 1
        c.count('signals')
        c.saw(text, o, sig, cut)
        left = os.listdir(W.dir + '/tmp')
        if left:
            c.violation('temporary', 'byacc ended by signal %d leaves temporary files %s' % (sig, left), fl)
            return
        if rc == 0:
            c.violation('signal', 'byacc ended by signal %d exits 0' % sig, fl)
            return
