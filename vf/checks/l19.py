"""L19: lemon's command line selects what it writes and where."""
import os
import random
import re
import shutil
from .. import env, gen, le

TECH = ('runtime monitoring of the real lemon (ASan/UBSan) in scratch trees: every file before and after the run, exit status and messages compared with an independent model of '
        'the command line')
NOTE = ('Held on the executions observed. The model evaluates the arguments left to right (glued, name=value and +x forms, --), finds the template, and names the output files; contents are '
        'compared with a plain run of the same options, whose meaning other properties decide.')
TOOLS = ['lemon-san']
RULE = ('one evaluation = one run of lemon with one command line in one tree, its exit status, messages, standard output and the whole tree judged; distinct nontrivial = distinct '
        '(arguments, tree)')
ASSUMES = ['a - or + argument that starts with the letter of a flag sets that flag, whatever follows', 'the file name extension is what follows the last dot of the last component']

FLAGS = 'bcEgyYzumlpqrsSx'
STRS = 'dDT'
IGN = 'fIOW'


def plan(ctx):
    k = 8 if ctx.thorough else 1
    out = [['ok', i] for i in range(300 * k)] + [['bad', i] for i in range(150 * k)] + [['tmpl', i] for i in range(180 * k)]
    random.Random(ctx.seed).shuffle(out)
    return out


class Model:
    """What the command line asks for."""

    def __init__(self, args):
        self.f = dict.fromkeys(FLAGS, False)
        self.d = None
        self.T = None
        self.D = []
        self.err = []
        self.names = []
        dd = False
        for a in args:
            if dd:
                self.names.append(a)
            elif a == '--':
                dd = True
            elif a[:1] in ('-', '+'):
                k = a[1:2]
                if k and k in FLAGS:
                    self.f[k] = a[0] == '-'
                elif k and k in STRS:
                    self.string(k, a[2:])
                elif not (k and k in IGN):
                    self.err.append('undefined option.')
            elif '=' in a:
                k, v = a.split('=', 1)
                if k in FLAGS and len(k) == 1:
                    self.err.append('option requires an argument.')
                elif k in STRS and len(k) == 1:
                    self.string(k, v)
                elif not (k in IGN and len(k) == 1):
                    self.err.append('undefined option.')
            else:
                self.names.append(a)

    def string(self, k, v):
        if not v:
            self.err.append('missing argument on switch.')
        elif k == 'd':
            self.d = v
        elif k == 'T':
            self.T = v
        else:
            self.D.append(v)

    def base(self, fn):
        d, _, b = fn.rpartition('/')
        if '/' in fn:
            d += '/'
        if '.' in b:
            b = b[:b.rindex('.')]
        return d, b

    def outputs(self):
        """{kind: path}"""
        d, b = self.base(self.names[0])
        if self.d is not None:
            d = self.d + '/'
        o = {'c': d + b + '.c'}
        if not self.f['m']:
            o['h'] = d + b + '.h'
        if not self.f['q']:
            o['out'] = d + b + '.out'
        if self.f['S']:
            o['sql'] = d + b + '.sql'
        return o


def snapshot(root):
    s = {}
    for d, ds, fs in os.walk(root):
        for f in ds:
            p = os.path.join(d, f)
            if os.path.islink(p):
                s[os.path.relpath(p, root)] = os.readlink(p)
            else:
                s[os.path.relpath(p, root) + '/'] = None
        for f in fs:
            p = os.path.join(d, f)
            s[os.path.relpath(p, root)] = os.readlink(p) if os.path.islink(p) else open(p, 'rb').read()
    return s


def real(w, f):
    return os.path.normpath(os.path.join(w, f))


def grammar(rng):
    g = None
    while g is None:
        g = gen.conflict_free(rng, rng.choice(['tiny', 'small', 'medium', 'expr', 'kw']))
    g = le.start_ok(g)
    sp = le.Spell(g)
    out = ['%%token %s.' % ' '.join(sp.tok[t] for t in range(1, g.T)), '%start_symbol ' + sp.nt[g.start]]
    if rng.random() < 0.6:
        out += ['%include {', 'int inc;', '}']
    for m in 'ABXY':
        if rng.random() < 0.5:
            out += ['%ifdef ' + m, '%%code { int code_%s; }' % m, '%endif']
            break
    for j, (l, r) in enumerate(g.rules):
        out.append('%s ::= %s.%s' % (sp.nt[l], ' '.join(sp.sym(x) for x in r), rng.choice(['', ' { f(%d); }' % j, ' {\n  h();\n}'])))
    return '\n'.join(out) + '\n'


NAMES = ['g.y', 'g', 'gram.mar.y', 'in/g.y', 'in/g', 'v1.2/g', 'v1.2/g.y', './g.y', '../w/g.y', './g', 'in/../g.lemon', 'in/sub.d/g', 'in/sub.d/g.tab.y', 'x_1.lem', '../w/g']
ODD = ['a=b.y', '-g.y', '+x', 'in/k=v.y', '-q', '--']
DIRS = ['out', 'o.d', 'in', '.', 'out/deep.er/x', '../w/out', 'out/', 'v1.2']
ALLDIRS = ['in/sub.d', 'v1.2', 'out/deep.er/x', 'o.d']


def args_for(rng, fn, want=None, few=False):
    """A command line for the grammar fn; the template is left to the caller."""
    a = []
    for _ in range(rng.choice([0, 1, 2, 3]) if few else rng.choice([0, 1, 2, 4, 7])):
        r = rng.random()
        if r < 0.62:
            a.append(rng.choice('---+') + rng.choice('bcgyYzumlpqrsS') + rng.choice(['', '', '', '', 'q', 'xyz', '=1']))
        elif r < 0.8:
            v = rng.choice(DIRS)
            a.append(rng.choice(['-d' + v, '-d' + v, 'd=' + v, '+d' + v]))
        elif r < 0.9:
            v = rng.choice('ABXY')
            a.append(rng.choice(['-D' + v, 'D=' + v, '-D' + v + '=1']))
        else:
            k = rng.choice(IGN)
            a.append(rng.choice(['-' + k, '-' + k + 'nclude', k + '=inc', '+' + k + '2', k + '=']))
    if want:
        a.append(want)
    rng.shuffle(a)
    if fn in ODD:
        return a + ['--', fn]
    i = rng.randint(0, len(a))
    a.insert(i, fn)
    if rng.random() < 0.15:
        i = rng.randint(i, len(a))
        if not a[i:] or all(x == fn for x in a[i:]):
            a.insert(i, '--')
    return a


def norm(text):
    """Without the names of the files."""
    text = re.sub(rb'(?m)^#line (\d+) ".*"$', rb'#line \1', text)
    text = re.sub(rb'\*\* source file ".*"', b'** source file', text, 1)
    return re.sub(rb'(?m)^#include ".*\.h"$', b'#include H', text)


def tree(c, fn, text, tp, rng):
    w = c.path('t') + '/w'
    shutil.rmtree(c.path('t'), ignore_errors=True)
    for d in ALLDIRS + ['']:
        os.makedirs(os.path.join(w, d), exist_ok=True)
    files = {fn: text, 'keep.txt': b'keep\n', 'out/keep.c': b'keep\n', 'g.keep': b'x'}
    return w, files


def put(w, files):
    for f, t in files.items():
        p = os.path.join(w, f)
        os.makedirs(os.path.dirname(os.path.normpath(p)), exist_ok=True)
        open(p, 'wb').write(t)


def case(ctx, c):
    {'ok': ok, 'bad': bad, 'tmpl': tmpl}[c.spec[0]](ctx, c)


def run(ctx, c, w, args, cmd=None, env_=None):
    r = env.run((cmd or [ctx.tool('lemon-san')]) + args, cwd=w, env=env_)
    c.evals += 1
    return r


def tell(args, text):
    return {'g.y': text, 'cmd': 'lemon ' + ' '.join(args) + '\n'}


def plain(ctx, c, m, text, tp):
    """The same flags and macros in the plainest form, in an own directory."""
    p = c.path('plain')
    shutil.rmtree(p, ignore_errors=True)
    put(p, {'g.y': text, 't.c': tp})
    a = ['-' + k for k in FLAGS if m.f[k]] + ['-D' + x for x in m.D] + ['-Tt.c', 'g.y']
    r = env.run([ctx.tool('lemon-san')] + a, cwd=p)
    return r, {k: open(p + '/g.' + k, 'rb').read() if os.path.exists(p + '/g.' + k) else None for k in ('c', 'h', 'out', 'sql')}


def judge_ok(ctx, c, w, m, args, text, tp, before, r):
    fl = tell(args, text)
    what = 'lemon ' + ' '.join(args)
    if r.bad():
        c.violation('crash', '%s: %s\n%s' % (what, r.bad(), r.etext[:1500]), fl)
        return False
    p, ref = plain(ctx, c, m, text, tp)
    if p.rc or p.bad():
        c.violation('plain', 'the grammar of %s fails in a plain run: exit %d %s' % (what, p.rc, p.etext[:500]), fl)
        return False
    if r.rc or r.err:
        c.violation('fails', '%s: exit %d, %s' % (what, r.rc, r.etext[:600]), fl)
        return False
    if r.out.replace(b'// Reprint of input file "%s".\n' % m.names[0].encode(), b'// Reprint of input file "g.y".\n') != p.out:
        c.violation('stdout', '%s: standard output differs from that of a plain run with the same options' % what, dict(fl, stdout=r.out, plain=p.out))
        return False
    after = snapshot(os.path.dirname(w))
    expect = {} if m.f['E'] else {os.path.relpath(os.path.join(w, f), os.path.dirname(w)): (k, f) for k, f in m.outputs().items()}
    for f in sorted(set(before) | set(after)):
        if f in expect:
            continue
        if before.get(f, 0) != after.get(f, 0):
            c.violation('other-file', '%s: %s was %s' % (what, f, 'changed' if f in after and f in before else 'created' if f in after else 'removed'), dict(fl, tree='\n'.join(sorted(after))))
            return False
    for f, (k, named) in expect.items():
        if f not in after:
            c.violation('missing', '%s: %s is not written' % (what, f), dict(fl, tree='\n'.join(sorted(after))))
            return False
        if norm(after[f]) != norm(ref[k]):
            c.violation('content', '%s: %s differs from the file of a plain run with the same options' % (what, f), dict(fl, got=after[f], plain=ref[k]))
            return False
    if not m.f['E']:
        t = after[[f for f, (k, _) in expect.items() if k == 'c'][0]].decode('latin-1')
        d, b = m.base(m.names[0])
        inc = (m.d + '/' if m.d is not None else d) + b + '.h'
        if m.f['m'] and '#include "%s"\n' % inc not in t:
            c.violation('include', '%s: the parser does not include "%s"' % (what, inc), fl)
            return False
        if '** source file "%s"' % m.names[0] not in t:
            c.violation('source', '%s: the parser does not name its grammar file' % what, fl)
            return False
    c.saw(args, sorted(before), text)
    c.count('files judged', len(expect))
    return True


def ok(ctx, c):
    rng = c.rng
    tp = open(ctx.tool('lempar.c'), 'rb').read()
    text = grammar(rng).encode()
    for _ in range(4):
        fn = rng.choice(NAMES + NAMES + ODD)
        w, files = tree(c, fn, text, tp, rng)
        files['tmpl.d/t.c'] = tp
        v = rng.choice(['tmpl.d/t.c', './tmpl.d/t.c', 'in/../tmpl.d/t.c'])
        args = args_for(rng, fn, rng.choice(['-T', 'T=', '+T']) + v)
        if rng.random() < 0.1:
            args.insert(0, rng.choice(['-Tnothing', 'T=in']))
        if rng.random() < 0.12:
            args.insert(0, rng.choice(['-E', '-x', '-Ex', '-xE']))
        if rng.random() < 0.08:
            args.insert(0, '-x')
            args.insert(1, '+x')
        if '--' in args and args.index('--') < min(i for i, a in enumerate(args) if 'tmpl.d' in a):
            continue
        m = Model(args)
        if m.err or len(m.names) != 1 or m.f['E'] and m.f['x']:
            continue
        if rng.random() < 0.4:
            for k, f in m.outputs().items():
                f = os.path.relpath(os.path.normpath(os.path.join(w, f)), w)
                if f != fn and rng.random() < 0.6:
                    files[f] = b'#define OLD 1\n' * rng.choice([1, 3000])
        put(w, files)
        before = snapshot(os.path.dirname(w))
        if m.f['x']:
            r = run(ctx, c, w, args)
            if r.rc or r.err or r.out != b'Lemon version 1.0\n' or snapshot(os.path.dirname(w)) != before:
                c.violation('version', 'lemon %s: exit %d, prints %r %r' % (' '.join(args), r.rc, r.text[:200], r.etext[:300]), tell(args, text))
                return
            c.count('version')
            c.saw(args, text)
            continue
        r = run(ctx, c, w, args)
        if not judge_ok(ctx, c, w, m, args, text, tp, before, r):
            return
        c.count('-E' if m.f['E'] else 'well-formed command lines')
    c.sample(dict(args=args, outputs=m.outputs()))


def bad(ctx, c):
    """Mistakes: one message each, the list of the options, status 1 and nothing written."""
    rng = c.rng
    tp = open(ctx.tool('lempar.c'), 'rb').read()
    text = grammar(rng).encode()
    for _ in range(4):
        fn = rng.choice(NAMES)
        w, files = tree(c, fn, text, tp, rng)
        files['lempar.c'] = tp
        args = args_for(rng, fn)
        kind = rng.choice(['option', 'option', 'none', 'two', 'sep'])
        if kind == 'option':
            for _ in range(rng.choice([1, 1, 2, 3])):
                e = rng.choice(['-k', '+k', '-1', '-', '+', '-A', '-h', '-H', '-v', '-?', '--help', '--x', '-d', '-D', '-T', '+T', 'd=', 'D=', 'T=', 'q=1', 'x=', 'S=1', 'k=1', '=1', 'dd=out', 'quiet=1',
                                'Q=1', 'in/k=v', 'a=b.y'])
                args.insert(rng.randint(0, args.index('--') if '--' in args else len(args)), e)
        elif kind == 'none':
            args.remove(fn)
        elif kind == 'two':
            args.insert(rng.randint(0, len(args)), rng.choice([fn, 'keep.txt', 'nothing']))
        else:                                    # an option's argument may not stand alone
            i = rng.randint(0, args.index('--') if '--' in args else len(args))
            args[i:i] = [rng.choice(['-I', '-W', '-f', '-O', '-q', '-Dx']), rng.choice(['inc', 'out', '2'])]
        m = Model(args)
        if not m.err and (len(m.names) == 1 or m.f['x']):
            continue
        put(w, files)
        before = snapshot(os.path.dirname(w))
        r = run(ctx, c, w, args)
        fl = tell(args, text)
        what = 'lemon ' + ' '.join(args)
        if r.bad():
            c.violation('crash', '%s: %s\n%s' % (what, r.bad(), r.etext[:1500]), fl)
            return
        got = re.findall(r'(?m)^Command line syntax error: (.*)$', r.etext)
        if r.rc != 1 or r.out:
            c.violation('status', '%s: exit %d, prints %r, says %s' % (what, r.rc, r.text[:200], r.etext[:600]), fl)
            return
        if m.err:
            if got != m.err:
                c.violation('messages', '%s: the messages are %s and not %s' % (what, got, m.err), fl)
                return
            u = re.findall(r'(?m)^  -(\w)', r.etext)
            if sorted(u) != sorted(FLAGS + STRS + IGN):
                c.violation('usage', '%s: the list of options is %s' % (what, u), fl)
                return
            exe = ctx.tool('lemon-san')
            at = []
            for a, b in re.findall(r'(?m)^Command line syntax error: .*\n(.*)\n( *(?:\^-- here|here --\^))$', r.etext):
                at.append(len(b) - 1 if b.endswith('^') else b.index('^'))
                if a != ' '.join([exe] + args):
                    c.violation('echo', '%s: the command line is shown as %r' % (what, a), fl)
                    return
            want = []
            pos = len(exe) + 1
            for i, a in enumerate(args):
                n = len(Model(args[:i + 1]).err) - len(Model(args[:i]).err)
                if n:
                    want.append((pos, pos + len(a)))
                pos += len(a) + 1
            if len(at) != len(want) or any(not lo <= x <= hi for x, (lo, hi) in zip(at, want)):
                c.violation('pointer', '%s: the messages point at columns %s and not into %s' % (what, at, want), dict(fl, stderr=r.err))
                return
        elif 'Exactly one filename argument is required.' not in r.etext or got:
            c.violation('messages', '%s: says only %r' % (what, r.etext[:400]), fl)
            return
        if snapshot(os.path.dirname(w)) != before:
            c.violation('writes', '%s fails and changes files' % what, fl)
            return
        c.count('mistakes: ' + (m.err[0] if m.err else 'number of files'))
        c.saw(args, text)
    c.sample(dict(args=args, err=m.err, names=m.names))


def tmpl(ctx, c):
    """Which template is used."""
    rng = c.rng
    tp = open(ctx.tool('lempar.c'), 'rb').read()
    text = grammar(rng).encode()

    def mark(k):
        return tp + b'/* template %s */\n' % k.encode()
    for _ in range(4):
        fn = rng.choice(NAMES)
        w, files = tree(c, fn, text, tp, rng)
        args = args_for(rng, fn, few=True)
        d, b = Model([]).base(fn)
        how = rng.choice(['rel', 'rel', 'abs', 'path', 'path'])
        have = []                                # in order of precedence
        pr = rng.choice([0.15, 0.4, 0.7])
        if rng.random() < pr:
            have.append('T')
            files['in/own.c'] = mark('T')
            args.insert(rng.randint(0, args.index('--') if '--' in args else len(args)), rng.choice(['-Tin/own.c', 'T=in/own.c', '-T./in/own.c']))
        if rng.random() < pr:
            have.append('lt')
            files[d + b + '.lt'] = mark('lt')
        elif rng.random() < 0.6 and b != fn:     # names that must not be taken
            for x in (fn + '.lt', b.split('.')[0] + '.lt', 'v1.lt', 'in/sub.lt', 'out/' + b + '.lt'):
                if real(w, x) != real(w, d + b + '.lt'):
                    files[x] = mark('decoy')
        if rng.random() < pr:
            have.append('cwd')
            files['lempar.c'] = mark('cwd')
        if rng.random() < 0.3 and real(w, d + 'lempar.c') != real(w, 'lempar.c'):
            files[d + 'lempar.c'] = mark('decoy')
        exe = ctx.tool('lemon-san')
        e = None
        put(w, files)
        os.makedirs(w + '/bin')
        os.symlink(exe, w + '/bin/lemon')
        if how == 'path':
            dirs = ['p1', 'bin', 'p.3']
            rng.shuffle(dirs)
            for p in dirs:
                os.makedirs(w + '/' + p, exist_ok=True)
                if rng.random() < pr:
                    put(w, {p + '/lempar.c': mark(p)})
                    have.append(p)
            sep = [w + '/' + p if rng.random() < 0.7 else p for p in dirs]
            cmd = ['/usr/bin/env', 'PATH=' + ':'.join(sep), 'lemon']
        else:
            if rng.random() < 0.7:
                put(w, {'bin/lempar.c': mark('bin')})
                have.append('bin')
            cmd = [w + '/bin/lemon' if how == 'abs' else rng.choice(['bin/lemon', './bin/lemon', '../w/bin/lemon'])]
        m = Model(args)
        if m.err or len(m.names) != 1 or m.f['E'] or m.f['x']:
            continue
        before = snapshot(os.path.dirname(w))
        r = run(ctx, c, w, args, cmd)
        fl = tell(args, text)
        what = '%s %s with templates %s' % (' '.join(cmd), ' '.join(args), have)
        if not have:
            if r.bad() or r.rc != 1 or 'template file "' not in r.etext:
                c.violation('no-template', '%s: exit %d %s %s' % (what, r.rc, r.bad(), r.etext[:600]), fl)
                return
            f = m.outputs()['c']
            f = os.path.relpath(os.path.join(w, f), os.path.dirname(w))
            if snapshot(os.path.dirname(w)).get(f) != before.get(f):
                c.violation('no-template', '%s: writes %s' % (what, f), fl)
                return
            c.count('no template')
            c.saw(args, text, how)
            continue
        if not r.bad() and not r.rc:
            f = os.path.join(w, m.outputs()['c'])
            t = open(f, 'rb').read() if os.path.exists(f) else b''
            k = re.findall(rb'/\* template (.*) \*/', t)
            if k != [have[0].encode()]:
                c.violation('template', '%s: uses the template %s' % (what, k), fl)
                return
        if not judge_ok(ctx, c, w, m, args, text, mark(have[0]), before, r):
            return
        c.count('template from ' + ('PATH' if have[0] in ('p1', 'p.3') else have[0]))
    c.sample(dict(args=args, templates=have, how=how))
