"""L15: lemon's output depends only on the grammar and options, not on its spelling."""
import os
import random
import re
from .. import env, fuzz, repeat, gen, le, by, oracle, lsim, lchk
from ..lr import LALR, lemon_table
from . import l12

TECH = ('runtime monitoring: MemorySanitizer build of the real lemon, repeated runs under varied circumstances and re-spelled grammars compared byte for byte; '
        'event logs of several differently named parsers in one program compared with an LALR(1) oracle')
NOTE = 'Held on the executions observed.'
TOOLS = ['lemon', 'lemon-san', 'lemon-msan']
RULE = ('one evaluation = one further run of lemon on the same or a re-spelled grammar, its files and messages compared with those of the first run, or one input of one parser of a '
        'program with several, its events compared with the oracle; distinct nontrivial = distinct (grammar, options, circumstances, layout or input)')
ASSUMES = ['no white space follows the | or / of a multi-terminal', 'a comment or blank between two tokens of a grammar is layout; inside a C block, string or name it is not']


def plan(ctx):
    k = 8 if ctx.thorough else 1
    out = [['repeat', i] for i in range(80 * k)] + [['layout', i] for i in range(120 * k)] + [['names', i] for i in range(26 * k)]
    random.Random(ctx.seed).shuffle(out)
    return out


def case(ctx, c):
    {'repeat': rep, 'layout': layout, 'names': names}[c.spec[0]](ctx, c)


OPTS = ['-b', '-c', '-g', '-l', '-m', '-p', '-q', '-r', '-s', '-S', '-u', '-y', '-z']


def rep(ctx, c):
    rng = c.rng
    text = rng.choice([fuzz.gen_l(rng), rng.choice(fuzz.LEMON_SEEDS), fuzz.mutate(rng, rng.choice([fuzz.gen_l(rng), rng.choice(fuzz.LEMON_SEEDS)]), fuzz.LEMON_SEEDS, fuzz.LDICT)])
    opts = [x for x in OPTS if rng.random() < rng.choice([0.1, 0.3])]
    for m in 'ABXY':
        if rng.random() < 0.2:
            opts.append('-D' + m)
    opts.append('-T' + ctx.tool('lempar.c'))
    root = c.path('r')
    os.makedirs(root)
    name = 'g.y'
    fl = {name: text, 'cmd': 'lemon %s %s\n' % (' '.join(opts), name)}
    ref = repeat.once(ctx.tool('lemon'), name, opts, text, root + '/a', {})
    if ref[0].slow:
        c.inconclusive('slow')
        return
    if ref[0].bad():
        return                                    # L12 judges
    c.count('accepted' if ref[0].rc == 0 else 'rejected')
    for i in range(12 if ctx.thorough else 5):
        e, what = repeat.variation(rng, root)
        stale = None
        if rng.random() < 0.4:
            stale = {k: rng.choice([b'', b'old\n' * 900, v]) for k, v in ref[1].items()}
            what.append('old files')
        build = 'lemon'
        if rng.random() < 0.25:
            build += '-san'
            what.append('other build')
        got = repeat.once(ctx.tool(build), name, opts, text, root + '/' + rng.choice(repeat.PLACES), e, stale)
        c.evals += 1
        c.saw(text, opts, what, sorted(e))
        if got[0].slow:
            c.inconclusive('slow')
            return
        if got[0].bad():
            return
        d = repeat.diff(ref, (got[0], {k: v for k, v in got[1].items() if not (stale and k not in ref[1])}))
        if d:
            fl['environment'] = repr(e)
            c.violation('differs', 'lemon %s: %s (%s)' % (' '.join(opts), d, ', '.join(what) or 'nothing changed'), fl)
            return
    got = repeat.once(ctx.tool('lemon-msan'), name, opts, text, root + '/m', {})
    c.evals += 1
    c.count('MemorySanitizer runs')
    c.saw(text, opts, 'msan')
    if got[0].slow:
        c.inconclusive('slow')
        return
    if got[0].san:
        c.violation('uninitialised', 'lemon %s: %s\n%s' % (' '.join(opts), got[0].bad(), got[0].etext[:2500]), fl)
        return
    d = repeat.diff(ref, got)
    if d:
        c.violation('differs', 'lemon %s under MemorySanitizer: %s' % (' '.join(opts), d), fl)


COMMENTS = ['/* c */', '/**/', '/***/', '/*/ x */', '/* { */', '/* " */', "/* ' // */", '/* \n */', '/* a ::= b. */', '/* * / */', '// c\n', '//\n', '// }\n', '// " \' /* \n', '// \\\n', '/* // */', '/*\n\n\n*/']
SPACES = [' ', '  ', '\t', '\n', '\n\n', '\r\n', ' \n ', '\f', '\v']


def pieces(text):
    """Tokens of a grammar, C blocks and strings whole."""
    out = []
    i = 0
    while i < len(text):
        ch = text[i]
        if ch.isspace():
            i += 1
            continue
        j = i + 1
        if ch == '"':
            j = text.index('"', i + 1) + 1
        elif ch == '{':
            lev = 1
            while lev:
                x = text[j]
                if x == '{':
                    lev += 1
                elif x == '}':
                    lev -= 1
                elif text.startswith('/*', j):
                    j = text.index('*/', j + 2) + 1
                elif text.startswith('//', j):
                    j = text.index('\n', j)
                elif x in '"\'':
                    j += 1
                    while text[j] != x:
                        j += 2 if text[j] == '\\' else 1
                j += 1
        elif text.startswith('::=', i):
            j = i + 3
        elif ch.isalnum() or ch in '|/' and text[j].isalpha():
            while j < len(text) and (text[j].isalnum() or text[j] == '_'):
                j += 1
        out.append(text[i:j])
        i = j
    return out


def relay(rng, toks, style):
    out = []
    prev = ''
    for t in toks:
        need = prev and prev[-1].isalnum() | (prev[-1] == '_') and (t[0].isalnum() or t[0] == '_')
        # '/' before '/' or '*' would start a comment; '|' before a letter a multi-terminal
        need = need or prev and prev[-1] in '/|' or prev == ':' or prev == '.' and t[0] == '.'
        if style == 'tight':
            s = ' ' if need else ''
        elif style == 'lines':
            s = '\n'
        else:
            n = rng.choice([0, 1, 1, 2, 4]) if style == 'mixed' else 1
            s = ''
            for _ in range(n):
                s += rng.choice(COMMENTS) if rng.random() < 0.4 else rng.choice(SPACES)
            if need and not s:
                s = ' '
        if t[0] == '%' and s.endswith('\n'):
            s += ' ' if rng.random() < 0.2 else ''
        out.append(s)
        out.append(t)
        prev = t
    out.append(rng.choice(['', '\n', ' // end', '/* end */']) if style == 'mixed' else '\n')
    return ''.join(out)


def layout(ctx, c):
    rng = c.rng
    k = rng.random()
    if k < 0.5:
        S = lchk.err_setup(rng, rng.random() < 0.5)
        if not S:
            return
        g, a, v, t, f, ins = S
        lsim.randomize(rng, g, f)
        f.stack = rng.choice([None, 0, 6])
        text = lsim.emit(g, le.Spell(g), rng, f)
    elif k < 0.8:
        text = fuzz.gen_l(rng).decode('latin-1')
    else:
        text = fuzz.LEMON_SEEDS[1].decode('latin-1')
    toks = pieces(text)
    opts = ['-l', '-T' + ctx.tool('lempar.c')] + [x for x in OPTS if x not in ('-l', '-g', '-y', '-b') and rng.random() < 0.15]
    root = c.path('r')
    os.makedirs(root)
    ref = repeat.once(ctx.tool('lemon'), 'g.y', opts, text.encode('latin-1'), root + '/a', {})
    if ref[0].slow or ref[0].bad():
        c.inconclusive('reference run')
        return
    if ref[0].rc and not ref[1]:
        c.count('rejected')
        return
    c.count('grammars')
    for style in ('tight', 'lines', 'mixed', 'mixed', 'mixed', 'one'):
        new = relay(rng, toks, style)
        got = repeat.once(ctx.tool('lemon-san'), 'g.y', opts, new.encode('latin-1'), root + '/b', {})
        c.evals += 1
        c.saw(text, opts, new)
        fl = {'g.y': new, 'original.y': text, 'cmd': 'lemon %s g.y\n' % ' '.join(opts)}
        if got[0].slow:
            c.inconclusive('slow')
            return
        if got[0].bad():
            c.violation('crash', 'lemon: ' + got[0].bad(), fl)
            return
        # messages name lines
        for x in (ref, got):
            x[0].err = re.sub(rb'g\.y:\d+:', b'g.y:', x[0].err)
        d = repeat.diff(ref, got)
        if d:
            c.violation('layout', 'lemon %s: another layout (%s) of the same grammar: %s' % (' '.join(opts), style, d), fl)
            return
        c.count('layout ' + style)
    c.sample(dict(original=text[-400:], layout=new[-500:]))


def names(ctx, c):
    """Several parsers with their own names and token prefixes in one program."""
    rng = c.rng
    parsers = []
    for k in range(rng.choice([2, 3])):
        g = None
        while g is None:
            g = gen.conflict_free(rng, rng.choice(['tiny', 'small', 'null', 'unit', 'medium', 'gadget']))
        g = le.start_ok(g)
        # another order of the rules: the start symbol must be declared
        if rng.random() < 0.6:
            by_lhs = {}
            for r in g.rules:
                by_lhs.setdefault(r[0], []).append(r)
            o = list(by_lhs)
            rng.shuffle(o)
            g.rules = [r for x in o for r in by_lhs[x]]
            g = type(g)(g.T, g.N, g.rules, g.start, [None] * len(g.rules), g.tprec, g.err, list(g.terms), list(g.nts))
        a = LALR(g, augmented=False)
        t = lemon_table(a)
        if t.conf:
            raise env.HarnessError('conflicts')
        nm = rng.choice(['Foo', 'bar_', 'P', 'sqlite3Parser', 'Parser2', 'X', 'parse', 'ParseTwo']) + str(k)
        pre = rng.choice(['TK_', 'T', 'tok_', 'ABC_']) + str(k) + '_'
        sp = le.Spell(g)
        extra = ['%name ' + nm] if rng.random() < 0.5 else ['%name {' + nm + '}']
        st = rng.choice([None, None, 0, 400, 37])
        text = le.emit_plain(g, sp, rng, prefix=pre, extra=extra, stack=st)
        for x in ('Alloc', 'Free'):
            text = text.replace('Parse' + x + '(', nm + x + '(')
        text = text.replace('            Parse(p,', '            %s(p,' % nm).replace('int main(void)', 'int main_%d(void)' % k)
        parsers.append((g, a, t, nm, pre, text, st))
    main = '#include <stdio.h>\n#include <stdlib.h>\n' + ''.join('int main_%d(void);\n' % k for k in range(len(parsers))) + \
        'int main(int n, char **a) { switch (atoi(a[1])) {' + ''.join('case %d: return main_%d();' % (k, k) for k in range(len(parsers))) + '} return 9; }\n'
    c.write('main.c', main)
    objs = []
    files = {'main.c': main}
    for k, (g, a, t, nm, pre, text, st) in enumerate(parsers):
        c.write('p%d.y' % k, text)
        files['p%d.y' % k] = text
        r = le.run_lemon(c, rng.sample(['-l', '-c', '-r', '-s'], rng.choice([0, 1])), 'p%d.y' % k)
        if r.slow:
            c.inconclusive('slow')
            return
        if r.bad() or r.rc:
            c.violation('generator', 'lemon: %s exit %d\n%s' % (r.bad(), r.rc, r.etext[:1000]), files)
            return
        rc, msg = env.sh(['gcc', '-g0', '-w', '-c', 'p%d.c' % k, '-o', 'p%d.o' % k] + env.SAN, c.dir)
        if rc:
            c.violation('compile', 'does not compile:\n' + msg[:2000], files)
            return
        rc, msg = env.sh(['nm', '-g', '--defined-only', 'p%d.o' % k], c.dir)
        syms = [x.split()[-1] for x in msg.split('\n') if x.split() and x.split()[-2] in 'TDBRVC']
        c.evals += 1
        bad = [s for s in syms if not s.startswith(nm) and s != 'main_%d' % k and not s.startswith('_')]
        want = {nm + x for x in ('', 'Alloc', 'Free', 'Init', 'Finalize', 'Fallback')}
        if bad or not want <= set(syms):
            c.violation('names', 'with %%name %s the parser defines %s; not so named: %s, missing: %s' % (nm, syms, bad, sorted(want - set(syms))), files)
            return
        h = open(c.path('p%d.h' % k)).read()
        toks = re.findall(r'(\w+)\s*=\s*\d+', h)
        c.evals += 1
        bad = [x for x in toks if not x.startswith(pre)]
        sp = le.Spell(g)
        if bad or set(toks) != {pre + sp.tok[x] for x in range(1, g.T) if x != g.err} | {pre + 'LEMON_LAST_TOKEN'}:
            c.violation('prefix', 'with %%token_prefix %s the header defines %s' % (pre, toks), files)
            return
        m = re.search(r'(?m)^#define YYSTACKDEPTH\s+(\S+)', open(c.path('p%d.c' % k), encoding='latin-1').read())
        if st is not None and (not m or m.group(1) != str(st)):
            c.violation('stack', 'with %%stack_size %s the parser has YYSTACKDEPTH %s' % (st, m and m.group(1)), files)
            return
        objs.append('p%d.o' % k)
    rc, msg = env.compile_c(['main.c'] + objs, 'p', cwd=c.dir)
    if rc:
        c.violation('link', '%d differently named parsers do not link:\n%s' % (len(parsers), msg[:2000]), files)
        return
    c.count('programs')
    for k, (g, a, t, nm, pre, text, st) in enumerate(parsers):
        ins = gen.Inputs(g, a, rng).many(t, cover=60)
        ins = rng.sample(ins, min(len(ins), 60))
        r = env.run(['./p', str(k)], by.feed(ins), cwd=c.dir)
        if r.slow:
            c.inconclusive('slow')
            return
        lines = [x for x in r.text.split('\n') if ' =' in x]
        if r.bad() or r.rc or len(lines) != len(ins):
            c.violation('parser-run', 'parser %d of the program: %s (exit %s)\n%s' % (k, r.bad(), r.rc, r.etext[:1500]), files)
            return
        for toks, line in zip(ins, lines):
            ob = le.parse_line(line)
            if ob['over']:
                continue
            c.evals += 1
            o = dict(acc=ob['acc'] is not None, err=ob['errs'][0][0] if ob['errs'] else None, reds=ob['reds'])
            m, status, pos = oracle.judge(a, t, toks, o, frozenset(), first_default=False)
            if m:
                f = dict(files)
                f['input'] = by.feed([toks])
                c.violation('language', 'parser %s (number %d of the program): %s\ninput: %s\nevents: %s' % (nm, k, m, ' '.join(g.name(x) for x in toks), line[:1000]), f)
                return
            if toks:
                c.saw(g.rules, nm, tuple(toks))
