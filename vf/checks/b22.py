"""B22: byacc's command line selects what it writes and where."""
import os
import random
import re
import shutil
from .. import env, gen, by
from .l19 import snapshot, put

TECH = ('runtime monitoring of the real byacc (ASan/UBSan) in scratch trees: every file before and after the run, exit status and messages compared with an independent model of '
        'the command line')
NOTE = ('Held on the executions observed. The model evaluates clustered, glued, separate and long options, - and --, and names the output files; contents are compared with a plain run of '
        'the same options, whose meaning other properties decide.')
TOOLS = ['byacc-san', 'nbyacc-san']
RULE = ('one evaluation = one run of byacc with one command line in one tree, its exit status, messages, standard output and the whole tree judged; distinct nontrivial = distinct '
        '(arguments, tree)')
ASSUMES = ['options and the file name may come in any order (GNU getopt)', '-d and -H are not given together, nor -n and -N']

FLAGS = 'cCdeEgilnNPrsStvuzy'
BT = 'BL'
ARG = 'bHop'
LONG = [('defines', 1, 'H'), ('file-prefix', 1, 'b'), ('carburetta', 0, 'c'), ('graph', 0, 'g'), ('ebnf', 0, 'e'), ('lemon', 0, 'E'), ('help', 0, 'h'), ('naked', 0, 'n'), ('nakedq', 0, 'N'),
        ('sql', 0, 'S'), ('name-prefix', 1, 'p'), ('no-lines', 0, 'l'), ('output', 1, 'o'), ('version', 0, 'V')]
EXT = [('v', '.output'), ('g', '.dot'), ('e', '.ebnf'), ('E', '.yl'), ('n', '.yn'), ('N', '.yn'), ('S', '.sql'), ('c', '.ycbrt'), ('C', '.ypar')]


def plan(ctx):
    k = 8 if ctx.thorough else 1
    out = [['ok', i] for i in range(330 * k)] + [['bad', i] for i in range(170 * k)]
    random.Random(ctx.seed).shuffle(out)
    return out


class Cmd:
    """A list of options with their spelling, and what they mean."""

    def __init__(self, bt):
        self.bt = bt
        self.f = set()
        self.v = {}
        self.args = []

    def flags(self, rng, n):
        fl = [x for x in FLAGS + (BT if self.bt else '')]
        out = []
        for _ in range(n):
            x = rng.choice(fl)
            if x == 'd' and 'H' in self.v or x == 'n' and 'N' in self.f or x == 'N' and 'n' in self.f:
                continue
            self.f.add(x)
            out.append(x)
        return out

    def add(self, rng, kind):
        """Append one argument (or an option and its value)."""
        if kind == 'flags':
            fl = self.flags(rng, rng.choice([1, 1, 1, 2, 3, 5]))
            if fl:
                self.args.append('-' + ''.join(fl))
        elif kind == 'value':
            k = rng.choice(ARG)
            if k == 'H' and 'd' in self.f:
                k = 'o'
            v = value(rng, k)
            fl = self.flags(rng, rng.choice([0, 0, 0, 1, 2]))
            if k == 'H' and 'd' in self.f:
                k = 'b'
                v = value(rng, k)
            self.v[k] = v
            a = '-' + ''.join(fl) + k
            if rng.random() < 0.5:
                self.args.append(a + v)
            else:
                self.args += [a, v]
        else:
            name, arg, k = rng.choice([x for x in LONG if x[2] not in 'hV'])
            if k == 'H' and 'd' in self.f or k == 'n' and 'N' in self.f or k == 'N' and 'n' in self.f:
                return
            a = '--' + short(rng, name)
            if arg:
                self.v[k] = value(rng, k)
                if rng.random() < 0.6:
                    self.args.append(a + '=' + self.v[k])
                else:
                    self.args += [a, self.v[k]]
            else:
                self.f.add(k)
                self.args.append(a)

    def files(self, fn):
        """{kind: path}"""
        o = self.v.get('o')
        pre = self.v.get('b', 'y')
        hs, xs = '.tab.h', '.tab.i'
        if o is None:
            o = pre + '.tab.c'
        elif o.endswith('.tab.c'):
            pre = o[:-6]
        elif o.endswith('.c'):
            pre, hs, xs = o[:-2], '.h', '.i'
        r = {'tab': o}
        if 'r' in self.f:
            r['code'] = pre + '.code.c'
        if 'H' in self.v:
            r['H'] = self.v['H']
        elif 'd' in self.f:
            r['d'] = pre + hs
        if 'i' in self.f:
            r['i'] = pre + xs
        for k, e in EXT:
            if k in self.f:
                r[k] = pre + e
        return r


def short(rng, name):
    """The name or an unambiguous beginning of it."""
    if rng.random() < 0.6:
        return name
    for n in range(rng.randint(1, len(name)), len(name) + 1):
        if sum(x.startswith(name[:n]) for x, _, _ in LONG) == 1:
            return name[:n]
    return name


DIRS = ['', '', '', 'out/', 'o.d/', 'in/', './', 'out/deep.er/', '../w/', 'o.d/../out/', 'v--1/']


def value(rng, k):
    d = rng.choice(DIRS)
    if k == 'b':
        return d + rng.choice(['p', 'yy', 'p.c', 'x-1', 'a.b', 'p.tab', 'a=b', 'a_long--prefix', 'ab--cd'])
    if k == 'o':
        return d + rng.choice(['o.c', 'o.tab.c', 'o', 'o.cc', 'o.c.c', 'o.tab.c.c', 'o.y.c', 'a=b.c', 'long_name.tab.c', 'o.tab.cc', 'o.C', 'ab--cdef', 'a--b.c', 'xy--12.tab.c', 'tab.c', 'oc', 'o.h.c'])
    if k == 'H':
        return d + rng.choice(['h.h', 'tokens.hh', 'defs', 'a=b.h', 'name--x.h'])
    return rng.choice(['yy_', 'foo', 'calc_', 'p1', 'YY', 'a--b'[:1], 'long_prefix_'])


def grammar(rng):
    g = None
    while g is None:
        g = gen.conflict_free(rng, rng.choice(['tiny', 'small', 'medium', 'expr', 'kw']))
    sp = by.Spell(g, rng)
    out = rng.choice([[], ['%{', 'int pro;', '%}'], ['%union { int i; }'], ['%code requires { int req; }']])
    t = by.emit_plain(g, sp, rng)
    i = t.index('%%')
    out = out + [l for l in t[:i].split('\n') if l.startswith(('%token', '%start', '%left', '%right', '%nonassoc'))] + ['%%']
    for j, (l, r) in enumerate(g.rules):
        out.append('%s : %s %s;' % (sp.sym(l), ' '.join(sp.sym(x) for x in r), rng.choice(['', '{ f(%d); }' % j, '{\n  h();\n}'])))
    if rng.random() < 0.5:
        out += ['%%', 'int third;']
    return '\n'.join(out) + '\n'


def norm(t):
    t = re.sub(rb'(?m)^#line (\d+) ".*"$', rb'#line \1', t)
    t = re.sub(rb'(?m)^(\s*)#include ".*"$', rb'\1#include', t)
    return re.sub(rb'\Adigraph .* \{', b'digraph {', t)


NAMES = ['g.y', 'in/g.y', './g.y', 'in/../g.grammar', 'g', 'v--1/g.y', '../w/g.y', 'a=b.y']
ODD = ['-g.y', '--', '--output', '-']


def tree(c, fn, text):
    w = c.path('t') + '/w'
    shutil.rmtree(c.path('t'), ignore_errors=True)
    for d in ('', 'in', 'out/deep.er', 'o.d', 'v--1', '../tmp'):
        os.makedirs(os.path.join(w, d), exist_ok=True)
    return w, {fn: text, 'keep.txt': b'keep\n', 'out/keep.c': b'keep\n', 'y.keep': b'x'}


def make(rng, bt, fn):
    m = Cmd(bt)
    parts = []
    for _ in range(rng.choice([0, 1, 2, 3, 5, 8])):
        n = len(m.args)
        m.add(rng, rng.choices(['flags', 'value', 'long'], [5, 3, 3])[0])
        if m.args[n:]:
            parts.append(m.args[n:])
    return m, parts


def run(ctx, c, variant, w, args, inp=b''):
    t = os.path.dirname(w) + '/tmp'
    r = env.run([ctx.tool(variant + '-san')] + args, inp=inp, cwd=w, env={'TMPDIR': t, 'TEMP': t})
    c.evals += 1
    return r


def case(ctx, c):
    {'ok': ok, 'bad': bad}[c.spec[0]](ctx, c)


def ok(ctx, c):
    rng = c.rng
    text = grammar(rng).encode('latin-1')
    for _ in range(4):
        variant = rng.choice(['byacc', 'byacc', 'nbyacc'])
        stdin = rng.random() < 0.15
        fn = '-' if stdin else rng.choice(NAMES + NAMES + ODD[:3])
        w, files = tree(c, 'in/unused.y' if stdin else fn, text)
        m, parts = make(rng, variant == 'byacc', fn)
        if fn in ODD[:3]:
            args = sum(parts, []) + ['--', fn]
        else:
            i = rng.randint(0, len(parts))       # the last of each option wins: their order is kept
            parts.insert(i, [fn])
            if i == len(parts) - 1 and rng.random() < 0.2:
                parts.insert(i, ['--'])
            args = sum(parts, [])
        out = m.files(fn)
        at = {k: os.path.relpath(os.path.normpath(os.path.join(w, f)), os.path.dirname(w)) for k, f in out.items()}
        if len(set(at.values())) < len(at) or not stdin and 'w/' + os.path.normpath(fn) in at.values():
            continue
        for k, f in at.items():
            if rng.random() < 0.2:
                files[os.path.relpath(f, 'w')] = b'old\n' * rng.choice([1, 20000])
        put(w, files)
        before = snapshot(os.path.dirname(w))
        info = None
        if rng.random() < 0.08:                  # -V, whatever follows it
            i = 0
            v = rng.choice(['-V', '--version', '--vers', '-dV', '-yVk'])
            args = [v] + args + rng.choice([[], ['keep.txt'], ['-k']])
            info = True
        r = run(ctx, c, variant, w, args, text if stdin else b'')
        fl = {'g.y': text, 'cmd': variant + ' ' + ' '.join(args) + '\n'}
        what = '%s %s' % (variant, ' '.join(args))
        if r.bad():
            c.violation('crash', '%s: %s\n%s' % (what, r.bad(), r.etext[:1500]), fl)
            return
        after = snapshot(os.path.dirname(w))
        if info:
            if r.rc or r.err or not re.fullmatch(r'\S* - [0-9]\S*( \d+)?\n', r.text) or after != before:
                c.violation('version', '%s: exit %d, prints %r %r' % (what, r.rc, r.text[:200], r.etext[:300]), fl)
                return
            c.count('version')
            c.saw(args, text)
            continue
        if r.rc or r.err or r.out:
            c.violation('fails', '%s: exit %d, %s%s' % (what, r.rc, r.text[:200], r.etext[:600]), fl)
            return
        exp = {f: k for k, f in at.items()}
        for f in sorted(set(before) | set(after)):
            if f not in exp and before.get(f, 0) != after.get(f, 0):
                c.violation('other-file', '%s: %s was %s' % (what, f, 'changed' if f in after and f in before else 'created' if f in after else 'removed'), dict(fl, tree='\n'.join(sorted(after))))
                return
        p = c.path('plain')
        shutil.rmtree(p, ignore_errors=True)
        put(p, {'g.y': text})
        a = ['-' + x for x in sorted(m.f)] + (['-p', m.v['p']] if 'p' in m.v else []) + (['-Hy.h'] if 'H' in m.v else [])
        q = env.run([ctx.tool(variant + '-san')] + a + ['g.y'], cwd=p)
        if q.rc or q.err:
            c.violation('plain', 'the grammar of %s fails in a plain run %s: exit %d %s' % (what, a, q.rc, q.etext[:500]), fl)
            return
        ref = {'tab': '.tab.c', 'code': '.code.c', 'H': '.h', 'd': '.tab.h', 'i': '.tab.i'}
        ref.update(EXT)
        inc = []
        for k, f in at.items():
            if f not in after:
                c.violation('missing', '%s: %s is not written' % (what, f), dict(fl, tree='\n'.join(sorted(after))))
                return
            t = open(p + '/y' + ref[k], 'rb').read()
            if norm(after[f]) != norm(t):
                c.violation('content', '%s: %s differs from the file of a plain run with the same options' % (what, f), dict(fl, got=after[f], plain=t))
                return
            if k in ('tab', 'code'):
                inc += re.findall(r'(?m)^#include "(.*)"$', after[f].decode('latin-1'))
                own = set(re.findall(r'(?m)^#line \d+ "(.*)"$', after[f].decode('latin-1')))
                if not own <= {'(null)' if stdin else fn, out.get('code', out['tab'])}:
                    c.violation('line', '%s: %s has #line directives for %s' % (what, f, sorted(own)), fl)
                    return
        want = [out[k] for k in 'iHd' if k in out] if 'i' in out else []
        if [x for x in inc if x in out.values()] != want:
            c.violation('include', '%s: the parser includes %s and not %s' % (what, inc, want), fl)
            return
        c.saw(args, text)
        c.count('well-formed command lines')
        c.count('files judged', len(at))
    c.sample(dict(args=args, outputs=out))


def bad(ctx, c):
    rng = c.rng
    text = grammar(rng).encode('latin-1')
    for _ in range(4):
        variant = rng.choice(['byacc', 'byacc', 'nbyacc'])
        fn = rng.choice(NAMES)
        w, files = tree(c, fn, text)
        m, parts = make(rng, variant == 'byacc', fn)
        kind = rng.choice(['short', 'long', 'noarg', 'none', 'two', 'help', 'stdin'])
        i = rng.randint(0, len(parts))
        if kind == 'two':
            parts.insert(i, [fn])
            parts.insert(rng.randint(0, len(parts)), [rng.choice([fn, 'keep.txt', 'nothing'])])
        elif kind != 'none':
            parts.insert(i, [fn])
        i = rng.randint(0, len(parts))
        a = None
        if kind == 'short':
            a = '-' + ''.join(rng.choice('dlvty') for _ in range(rng.choice([0, 0, 1, 2]))) + rng.choice('akKAjqwxWTOIMUX1?@#') + rng.choice(['', '', 'd', 'v'])
        elif kind == 'long':
            a = rng.choice(['--foo', '--outputs', '--output=', '--=x', '--graph=1', '--help=x', '--defines=', '--lemons', '--no-line=1', '--x=y', '--outpu-t=x', '--Graph', '--naked-q', '--sql=', '--c=1'])
        elif kind == 'help':
            a = rng.choice(['-h', '--help', '--he', '-dh', '-hV'])
        if a:
            parts.insert(i, [a])
        elif kind == 'noarg':
            parts.append([rng.choice(['-b', '-o', '-p', '-H', '--output', '--defines', '--file-prefix', '-do', '-lvb'])])
        elif kind == 'stdin':
            parts = [x for x in parts if x != [fn]] + [['-'], [fn]]
        args = sum(parts, [])
        put(w, files)
        before = snapshot(os.path.dirname(w))
        r = run(ctx, c, variant, w, args, text if rng.random() < 0.5 else b'')
        fl = {'g.y': text, 'cmd': variant + ' ' + ' '.join(args) + '\n'}
        what = '%s %s' % (variant, ' '.join(args))
        if r.bad():
            c.violation('crash', '%s: %s\n%s' % (what, r.bad(), r.etext[:1500]), fl)
            return
        if r.rc != 1 or r.out or '\nOptions:\n' not in r.etext or 'Usage: ' not in r.etext:
            c.violation('usage', '%s: exit %d, prints %r, says %s' % (what, r.rc, r.text[:200], r.etext[:600]), fl)
            return
        head = r.etext[:r.etext.index('Usage: ')]
        if kind == 'long' and head != 'invalid option: %s\n' % a or kind in ('none', 'two', 'help', 'stdin') and head:
            c.violation('message', '%s says %r' % (what, head), fl)
            return
        if kind in ('short', 'noarg') and "option " not in head:
            c.violation('message', '%s says only %r' % (what, head), fl)
            return
        lo = dict(re.findall(r'(?m)^  --(\S+) +-(\w)$', r.etext))
        so = set(re.findall(r'(?m)^  -(\w)\b', r.etext))
        if not set(FLAGS + BT + ARG + 'hV') - {'y'} <= so or lo != {n: k for n, _, k in LONG}:
            c.violation('list', '%s lists the options %s and %s' % (what, sorted(so), lo), fl)
            return
        if snapshot(os.path.dirname(w)) != before:
            c.violation('writes', '%s fails and changes files' % what, fl)
            return
        c.count('mistakes: ' + kind)
        c.saw(args, text)
    c.sample(dict(args=args, kind=kind))
