"""B09: byacc's options and the directives equivalent to them."""
import os, random, re
from .. import env, gen, by, ysim
from ..lr import LALR, byacc_table
from .b05 import usable, special, compare
from .b06 import assign_dest

TECH = ('ASan/UBSan plus runtime monitors: files created, defines of the header, and the event log of the linked program (parser, tables, scanner and main in separate '
        'files, one or two parsers) compared with a model')
NOTE = ('Held on the executions observed: random combinations of -b -o -d -H -i -r -l -t -p -P -L -s -y, long options, directives, export options, both byacc builds.')
TOOLS = ['byacc-san', 'nbyacc-san']
RULE = ('one evaluation = one input parsed by a program built under a random combination of options, its event log compared with the model; distinct nontrivial = '
        'distinct (grammar, command, input) of programs with a header, an interface file, separate tables or two parsers')
ASSUMES = ['the run model (vf/ysim.py)']


def plan(ctx):
    k = 6 if ctx.thorough else 1
    out = [['one', i] for i in range(230 * k)] + [['two', i] for i in range(50 * k)] + [['form', i] for i in range(80 * k)]
    random.Random(ctx.seed).shuffle(out)
    return out


class Bad(Exception):
    def __init__(self, key, msg, files):
        self.key, self.msg, self.files = key, msg, files


class Slow(Exception):
    pass


def grammar(rng, variant):
    """(grammar, automaton, table, features)"""
    f = by.Full()
    x = rng.random()
    if x < 0.5:
        g = gen.error_grammar(rng)
    elif x < 0.6:
        g = gen.ambiguous(rng, prec=True, assocs='LR')
    else:
        g = gen.conflict_free(rng, rng.choice(['tiny', 'small', 'expr', 'null', 'gadget'])) or gen.error_grammar(rng)
    if rng.random() < 0.3:
        g2, mid, midof = by.add_midrules(rng, g, rng.randint(1, 3))
        if not g2.loopy() and not byacc_table(LALR(g2)).conf:
            g, f.mid, f.midof = g2, mid, midof
    a = LALR(g)
    f.pure = rng.random() < 0.3
    f.loc = variant == 'byacc' and rng.random() < 0.3
    f.param = rng.random() < 0.15
    f.silent = frozenset(j for j in range(len(g.rules)) if rng.random() < 0.1 and j not in f.mid)
    if rng.random() < 0.4:
        f.tags = {x: rng.choice(['i', 'ix', 'p', 'd', None]) for x in range(1, g.T + g.N) if x != g.err}
        if g.err is not None:
            f.tags[g.err] = None
        for l, r in g.rules:
            for m in r:
                if m in f.midof:
                    f.tags[m] = f.tags[l] if variant == 'byacc' else None
        for i, (l, r) in enumerate(g.rules):
            if i in f.silent and (not r or f.tags.get(l) != f.tags.get(r[0]) or r[0] == g.err):
                f.silent = f.silent - {i}
    special(rng, g, f)
    return g, a, byacc_table(a), f


def spelling(rng, g, f):
    sp = by.Spell(g, rng, lit=rng.choice([0, 0.3, 0.6]), num=0)
    used = {0, 256} | {int(sp.code[t]) for t in sp.lits}
    strs = {}
    sp.errcode = 256
    if rng.random() < 0.15:
        # the error token may be given a number of its own
        v = rng.choice([rng.randint(257, 262), rng.randint(257, 400), rng.randint(1, 255), 1000])
        if v not in used:
            sp.errcode = v
            if g.err is not None:
                sp.code[g.err] = str(v)
            used.add(v)
    for t in range(1, g.T):
        if t in sp.lits or t == g.err:
            continue
        x = rng.random()
        if x < 0.15:
            v = rng.choice([rng.randint(1, 255), rng.randint(257, 262), rng.randint(257, 300), rng.randint(600, 2000), rng.choice([9999, 32000])])
            if v not in used:
                used.add(v)
                sp.num[t] = v
        elif x < 0.3 and t not in g.tprec:
            w = rng.choice(['S_%d' % t, 'str%d' % t, 'S%dx' % t])
            sp.tok[t] = '"%s"' % w
            sp.code[t] = w
            strs[t] = w
    return sp, strs


def rename(text, tag):
    return re.sub(r'\bvf_', tag, text)


def options(rng, variant, f, tag, two):
    """Random packaging: dict with opts, text edits and the files expected."""
    o = dict(opts=[], decl=[], files=set())
    opts = o['opts']
    pre = f.prefix
    if pre:
        x = rng.random()
        opts += ['-p', pre] if x < 0.5 else ['-p' + pre] if x < 0.7 else ['--name-prefix=' + pre] if x < 0.85 else ['--name-prefix', pre]
    base = 'y'
    o['sub'] = sub = rng.choice(['', '', '', 'out/', 'out/d.x/'])
    x = rng.random()
    outname = None
    dsuf, isuf = '.tab.h', '.tab.i'
    if x < 0.45 or two:
        base = sub + rng.choice(['p%s', 'gr.%s', 'x.tab%s', '%s-1', '%s.c']) % tag.strip('_')
        y = rng.random()
        opts += ['-b', base] if y < 0.5 else ['-b' + base] if y < 0.7 else ['--file-prefix=' + base] if y < 0.85 else ['--file-prefix', base]
        if rng.random() < 0.3:
            y = rng.random()
            outname = sub + tag.strip('_') + rng.choice(['out.c', 'o.tab.c', '.tab.c', 'o.cc', 'o', 'o.tab', 'o.c.txt'])
    elif x < 0.7:
        outname = sub + rng.choice(['out.c', 'o.tab.c', 'o.cc', 'o', 'c', '.c', '.tab.c', 'o.tab'])
    if outname:
        y = rng.random()
        opts += ['-o', outname] if y < 0.5 else ['-o' + outname] if y < 0.7 else ['--output=' + outname] if y < 0.85 else ['--output', outname]
        if outname.endswith('.tab.c'):
            base = outname[:-6]
        elif outname.endswith('.c'):
            base = outname[:-2]
            dsuf, isuf = '.h', '.i'
    o['c'] = outname or base + '.tab.c'
    o['files'].add(o['c'])
    o['code'] = o['c']
    if rng.random() < 0.3:
        opts.append('-r')
        o['code'] = base + '.code.c'
        o['files'].add(o['code'])
    o['h'] = o['i'] = None
    x = rng.random()
    if x < 0.4:
        opts.append('-d')
        o['h'] = base + dsuf
    elif x < 0.65:
        o['h'] = sub + rng.choice(['defs%s.h', 'inc%s.hpp', 'H%s', 't-%s.h']) % tag.strip('_')
        y = rng.random()
        opts += ['-H', o['h']] if y < 0.5 else ['-H' + o['h']] if y < 0.7 else ['--defines=' + o['h']] if y < 0.85 else ['--defines', o['h']]
    if o['h']:
        o['files'].add(o['h'])
    if rng.random() < 0.3:
        opts.append('-i')
        o['i'] = base + isuf
        o['files'].add(o['i'])
    for x in ('-l', '-y', '-s', '-v', '-g', '-e', '-E', '-n', '-S', '-c', '-C', '-z'):
        if rng.random() < (0.2 if x < '-z' and x in '-l -y -s' else 0.06):
            if x == '-z' :
                continue
            long = {'-l': '--no-lines', '-g': '--graph', '-e': '--ebnf', '-E': '--lemon', '-n': '--naked', '-S': '--sql', '-c': '--carburetta'}
            opts.append(long[x] if x in long and rng.random() < 0.3 else x)
            suf = {'-v': '.output', '-g': '.dot', '-e': '.ebnf', '-E': '.yl', '-n': '.yn', '-S': '.sql', '-c': '.ycbrt', '-C': '.ypar'}.get(x)
            if suf:
                o['files'].add(base + suf)
    o['s'] = '-s' in opts
    o['debug'] = False
    if rng.random() < 0.3:
        o['debug'] = True
        if rng.random() < 0.5:
            opts.append('-t')
        else:
            o['decl'].append('%debug')
    if rng.random() < 0.1:
        o['decl'].append('%token-table')
    o['text'] = lambda t: t
    pure = loc = None
    if f.pure:
        x = rng.random()
        pure = '' if x < 0.4 else rng.choice(['%define api.pure', '%define api.pure true', '%define api.pure full', '%pure_parser']) if x < 0.7 else None
        if pure == '':
            opts.append('-P')
    if f.loc and rng.random() < 0.5:
        loc = ''
        opts.append('-L')

    def edit(t):
        if pure is not None:
            t = t.replace('%pure-parser', pure, 1)
        if loc is not None:
            t = t.replace('%locations', loc, 1)
        return t
    o['text'] = edit
    # join single letters, shuffle
    one = []
    rest = []
    i = 0
    while i < len(opts):
        if opts[i] in ('-b', '-o', '-p', '-H', '--file-prefix', '--output', '--name-prefix', '--defines'):
            rest.append(opts[i:i + 2])
            i += 2
        else:
            (one if len(opts[i]) == 2 else rest).append(opts[i:i + 1])
            i += 1
    if len(one) > 1 and rng.random() < 0.4:
        one = [['-' + ''.join(x[0][1] for x in one)]]
    seq = one + rest
    rng.shuffle(seq)
    o['opts'] = [y for x in seq for y in x]
    x = rng.random()
    o['stdin'] = x < 0.15
    if x < 0.15:
        o['opts'].append('-')
    elif x < 0.3:
        o['opts'].append('--')
    return o


HEADER = re.compile(r'(?m)^#define (\w+) (-?\d+)$')


def make(c, rng, tag, variant, two=False, prefix=None):
    """One parser: generated, its files and codes checked.  Returns dict(srcs, sim, ins, ...)."""
    g, a, t, f = grammar(rng, variant)
    f.prefix = prefix
    if f.loc and two and rng.random() < 0.5:
        f.loc = False
    sp, strs = spelling(rng, g, f)
    p = f.prefix or 'yy'
    if variant == 'byacc' and rng.random() < 0.35:
        assign_dest(random.Random(rng.random()), g, f, set(sp.lits) | set(strs))
    o = options(rng, variant, f, tag, two)
    extra = list(o['decl'])
    if sp.errcode != 256:
        extra.insert(rng.randint(0, len(extra)), '%%token error %d' % sp.errcode)
        c.count('parsers with a number for error')
    codes = rng.random() < 0.25
    if codes:
        extra += ['%%code requires { enum { %sreq = 1 }; }' % tag, '%%code provides { extern int %sprov; }' % tag, '%%code { int %sprov = 5; }' % tag, '%%code top { enum { %stop = 7 }; }' % tag]
    text = by.emit_full(g, sp, rng, f, extra)
    text = o['text'](text)
    sep = bool(o['h'] or o['i']) and rng.random() < 0.85
    # scanner and main in a file of their own, which sees the header only
    k = text.index('static int vf_codes[]')
    driver = text[k:]
    text = text[:k] if sep else text
    if sep:
        text = re.sub(r'(?m)^static (.*\bvf_)', r'extern \1', text)
        driver = re.sub(r'(?m)^static (.*\bvf_(codes|fired|ev|rule|val|new|hash)\b)', r'\1', driver)
        if codes:
            text += '\nint vf_code(void) { return 100 * vf_top + 10 * vf_req + (vf_prov == 5); }\n'
        inc = '#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <stdarg.h>\n'
        if o['i'] and rng.random() < 0.7 or not o['h']:
            inc += '#include "%s"\n' % o['i']
            own = True
        else:
            own = False
            if f.tags is None:
                inc += '#ifndef YYSTYPE\n#define YYSTYPE int\n#endif\n'
        if o['h']:
            inc += '#include "%s"\n' % o['h']
        if not own:
            if f.loc:
                inc += '#define vf_loc(L) ((L).first_line != (L).first_column || (L).last_line != (L).last_column ? vf_ev("!") : vf_ev("@%d~%d", (L).first_line, (L).last_line))\n'
            ep = ('void *l, ' if f.loc else '') + ('int *vf_ctx, ' if f.param else '') + 'const char *s'
            inc += 'void %serror(%s);\nint %sparse(%s);\n' % (p, ep, p, 'int *' if f.param else 'void')
            if not f.pure:
                inc += 'extern int %snerrs;\nint %slex(void);\n' % (p, p)
                if f.tags is None:
                    inc += 'extern YYSTYPE %slval;\n' % p
        if codes:
            inc += 'int vf_code(void);\n'
            if o['h'] and not own:
                inc += '#if 1\nint vf_seen = vf_req;\nint *vf_seen2 = &vf_prov;\n#endif\n'
        driver = inc + driver
        if own and rng.random() < 0.5 and f.prefix and not two:
            # the interface file maps the conventional names
            for x in ('parse', 'lex', 'error', 'lval', 'lloc', 'nerrs'):
                driver = re.sub(r'\b%s%s\b' % (re.escape(p), x), 'yy' + x, driver)
    if o['debug']:
        driver_or = 'extern int %sdebug;\nint *vf_dbg = &%sdebug;\n' % (p, p)
        if sep:
            driver = driver_or + driver if not ('-i' in str(o['opts']) or o['i']) else driver + driver_or
        else:
            text += driver_or
    body = driver if sep else text
    if two:
        body = body.replace('    static char vf_buf[1 << 20];\n    setvbuf(stdout, vf_buf, _IOFBF, sizeof vf_buf);\n', '').replace('int main(void)', 'int vf_main(void)')
        body = body.replace('while (scanf("%d", &vf_n) == 1)', 'if (scanf("%d", &vf_n) == 1)').replace('free(vf_t);\n    }\n    return 0;', 'free(vf_t);\n        return 1;\n    }\n    return 0;')
    if codes and sep:
        body = re.sub(r'(i = \w+parse\()', r'if (vf_code() != 711) vf_ev(" code?"); \1', body)
    if sep:
        driver = body
    else:
        text = body
    text, driver = rename(text, tag), rename(driver, tag)
    gname = 'g%s.y' % tag.strip('_')
    for d in {os.path.dirname(x) for x in o['files']} | {'ref'}:
        if d:
            os.makedirs(c.path(d), exist_ok=True)
    c.write(gname, text)
    files = {gname: text, 'cmd': '%s %s %s\n' % (variant, ' '.join(o['opts']), '< ' + gname if o['stdin'] else gname)}
    if sep:
        files['drv%s.c' % tag.strip('_')] = driver
    exe = c.ctx.tool(variant + '-san')

    def gen_(args, cwd, fname):
        r = env.run([exe] + args + ([] if args and args[-1] == '-' else [fname]), text if args and args[-1] == '-' else '', cwd=cwd)
        files['stderr'] = r.err
        if r.slow:
            raise Slow
        if r.bad() or r.rc:
            raise Bad('generator', '%s %s: %s (exit %s)\n%s' % (variant, args, r.bad() or 'fails', r.rc, r.etext[:1500]), files)
    before = tree(c.dir)
    gen_(o['opts'], c.dir, gname)
    made = tree(c.dir) - before
    for x in made:
        if x in (o['c'], o['code'], o['h'], o['i']):
            files[x] = open(c.path(x), 'rb').read()
    if made != o['files']:
        raise Bad('files', '%s %s: wrote %s, expected %s' % (variant, ' '.join(o['opts']), sorted(made), sorted(o['files'])), files)
    # token codes, by a plain run in another directory
    gen_(['-d'], c.path('ref'), '../' + gname)
    ref = open(c.path('ref/y.tab.h')).read()
    check_codes(ref, g, sp, strs, False, files, 'with -d only')
    want = dict((m.group(1), int(m.group(2))) for m in HEADER.finditer(ref))
    for x in ('y.tab.h', 'y.tab.c'):
        os.unlink(c.path('ref/' + x))
    src = o['h'] or (o['i'] if o['i'] else o['code'])
    got = check_codes(open(c.path(src), errors='replace').read(), g, sp, strs, o['s'], files, src, strict=bool(o['h']), yyerrcode=bool(o['i']) or not o['h'])
    for k, v in got.items():
        if want.get(k, v) != v and k != 'YYERRCODE':
            raise Bad('codes', '%s: %s is %d in %s and %d without the options' % (variant, k, v, src, want[k]), files)
    srcs = [o['code']] + ([o['c']] if o['c'] != o['code'] else [])
    if o['s']:
        # names of string tokens are not defined
        def num(tx):
            for t_, w in strs.items():
                tx = re.sub(r'(codes\[\] = \{[^}]*)\b%s\b' % w, lambda m: m.group(1) + str(want[w]), tx, count=1)
            return tx
        if sep:
            driver = num(driver)
        else:
            # the generated file holds the driver
            z = open(c.path(o['code'])).read()
            c.write(o['code'], num(z))
    if sep:
        c.write('drv%s.c' % tag.strip('_'), driver)
        files['drv%s.c' % tag.strip('_')] = driver
        srcs.append('drv%s.c' % tag.strip('_'))
    sim = ysim.YSim(a, t, f)
    I = gen.Inputs(g, a, rng)
    ins = usable(sim, I.many(t, 8, 14, 4, 60, 12, 40) + gen.stress_inputs(I, t, rng, 15))
    c.count('parsers')
    for x in ('-r', '-i', '-P', '-L', '-s', '-l', '-t'):
        c.count('with ' + x, int(any(y == x or re.fullmatch(r'-[a-zA-Z]+', y) and len(y) > 2 and y[1] not in 'bopH' and x[1] in y[1:] for y in o['opts'])))
    return dict(g=g, f=f, sim=sim, ins=ins, srcs=srcs, files=files, what='%s %s' % (variant, ' '.join(o['opts'])), o=o, sep=sep, text=text)


def tree(d):
    out = set()
    for r, _, fs in os.walk(d):
        for x in fs:
            out.add(os.path.relpath(os.path.join(r, x), d))
    return out


def check_codes(text, g, sp, strs, s, files, where, strict=True, yyerrcode=False):
    ds = [(m.group(1), int(m.group(2))) for m in HEADER.finditer(text)]
    want = [sp.tok[t] for t in range(1, g.T) if t not in sp.lits and t != g.err and t not in strs]
    if not s:
        want += list(strs.values())
    lits = {int(sp.code[t]) for t in sp.lits}
    named = [(k, v) for k, v in ds if k in want or k in strs.values()]
    if sorted(k for k, v in named) != sorted(want):
        raise Bad('codes', '%s defines %s, expected %s' % (where, sorted(k for k, v in named), sorted(want)), files)
    if strict:
        odd = [k for k, v in ds if k not in want and k != 'YYERRCODE' and not k.startswith(('YYSTYPE', 'YYLTYPE'))]
        if odd:
            raise Bad('codes', '%s defines %s' % (where, odd), files)
    d = dict(named)
    seen = set(lits) | {0, 256, sp.errcode} | set(sp.num.values())
    for t in range(1, g.T):
        if t in sp.lits or t == g.err:
            continue
        nm = strs.get(t, sp.tok[t])
        if s and t in strs:
            continue
        if t in sp.num:
            if d[nm] != sp.num[t]:
                raise Bad('codes', '%s: %s is %d, declared as %d' % (where, nm, d[nm], sp.num[t]), files)
        elif d[nm] < 257 or d[nm] in seen:
            raise Bad('codes', '%s: %s is %d' % (where, nm, d[nm]), files)
        seen.add(d[nm])
    e = dict(ds).get('YYERRCODE')
    if e is not None and e != sp.errcode or e is None and yyerrcode:
        raise Bad('codes', '%s: YYERRCODE is %s' % (where, e), files)
    return dict(ds)


PAIR = '''
#include <stdio.h>
int vA_main(void);
int vB_main(void);
int main(void)
{
    static char buf[1 << 20];
    setvbuf(stdout, buf, _IOFBF, sizeof buf);
    while (vA_main() && vB_main()) ;
    return 0;
}
'''


def case(ctx, c):
    try:
        if c.spec[0] == 'form':
            return form(ctx, c)
        return build_and_run(ctx, c)
    except Slow:
        return c.inconclusive('generator slow')
    except Bad as e:
        return c.violation(e.key, e.msg, e.files)


def link(c, srcs, files, what):
    # in separate translation units, any file name
    objs = []
    for i, s in enumerate(srcs):
        rc, msg = env.compile_c(['-c', '-x', 'c', s], 'o%d.o' % i, cwd=c.dir, flags=('-I.',))
        if rc:
            raise Bad('compile', '%s: %s does not compile:\n%s' % (what, s, msg[:2000]), files)
        objs.append('o%d.o' % i)
    rc, msg = env.compile_c(objs, 'p', cwd=c.dir)
    if rc:
        raise Bad('link', '%s: %s do not link:\n%s' % (what, ' '.join(srcs), msg[:2000]), files)


def build_and_run(ctx, c):
    rng = c.rng
    two = c.spec[0] == 'two'
    v1 = 'byacc' if rng.random() < 0.6 else 'nbyacc'
    pa, pb = rng.sample([None, 'calc_', 'X', 'zz', 'yyy', 'Yy_1_', 'q'], 2)
    A = make(c, rng, 'vA_', v1, two, pa)
    L = [A]
    if two:
        v2 = 'byacc' if rng.random() < 0.6 else 'nbyacc'
        L.append(make(c, rng, 'vB_', v2, True, pb))
        c.write('pair.c', PAIR)
    files = {}
    for x in L:
        files.update({k: v for k, v in x['files'].items() if k not in ('cmd', 'stderr')})
    files['cmd'] = ''.join(x['files']['cmd'] for x in L)
    srcs = [y for x in L for y in x['srcs']] + (['pair.c'] if two else [])
    what = ' + '.join(x['what'] for x in L)
    link(c, srcs, files, what)
    ins = [x['ins'] for x in L]
    n = min(map(len, ins))
    if not n:
        return
    seq = [x for t in zip(*ins) for x in t] if two else ins[0]
    r = env.run(['./p'], by.feed(seq), cwd=c.dir, cpu=25)
    if r.slow:
        return c.inconclusive('driver slow')
    lines = [x for x in r.text.split('\n') if ' =' in x]
    if r.bad() or r.rc or len(lines) != len(seq):
        return c.violation('parser-run', '%s: the program %s (exit %s) on input %d\n%s' % (what, r.bad() or 'stopped', r.rc, len(lines), r.etext[:2500]), dict(files, input=by.feed(seq)))
    for i, x in enumerate(L):
        o = x['o']
        simple = len(L) == 1 and not (o['h'] or o['i'] or o['c'] != o['code'])
        if not compare(c, x['sim'], x['ins'][:n] if two else x['ins'], lines[i::len(L)], files, what, 'behaviour', x['g'], x['f'], lambda m: not simple):
            return
    c.count('pairs of parsers in one program', int(two))


def form(ctx, c):
    """An option and its directive give the same files."""
    rng = c.rng
    variant = 'byacc' if rng.random() < 0.6 else 'nbyacc'
    g, a, t, f = grammar(rng, variant)
    f.pure = f.loc = False
    f.loc = variant == 'byacc' and rng.random() < 0.4
    f.pure = rng.random() < 0.6
    f.param = False
    sp, strs = spelling(rng, g, f)
    opts = ['-l'] + [x for x in ('-d', '-i', '-r', '-v') if rng.random() < 0.4]
    text = by.emit_full(g, sp, rng, f, ['%debug'])
    both = []
    for form_ in (0, 1):
        tx = text
        o = list(opts)
        for d, names, opt in (('%pure-parser', ['%pure-parser', '%define api.pure', '%define api.pure true', '%define api.pure full', '%pure_parser'], '-P'), ('%locations', ['%locations'], '-L'), ('%debug', ['%debug'], '-t')):
            if d + '\n' not in tx:
                continue
            if form_ == 0:
                tx = tx.replace(d + '\n', rng.choice(names) + '\n', 1)
            else:
                tx = tx.replace(d + '\n', '\n', 1)
                o.append(opt)
        d = c.path('d%d' % form_)
        os.makedirs(d)
        c.write('d%d/g.y' % form_, tx)
        files = {'g.y': tx, 'cmd': '%s %s g.y\n' % (variant, ' '.join(o))}
        r = by.run_byacc(c, variant, o, cwd=d)
        files['stderr'] = r.err
        if r.slow:
            raise Slow
        if r.bad() or r.rc:
            raise Bad('generator', '%s %s: %s (exit %s)\n%s' % (variant, o, r.bad() or 'fails', r.rc, r.etext[:1500]), files)
        out = {x: open(os.path.join(d, x), 'rb').read() for x in tree(d) if x != 'g.y'}
        both.append((out, tx, o))
    c.evals += 1
    c.count('pairs of option and directive')
    (A, ta, oa), (B, tb, ob) = both
    for x in sorted(set(A) | set(B)):
        if A.get(x) != B.get(x):
            return c.violation('form', '%s: %s differs between %s with directives and %s without' % (variant, x, oa, ob), {'directives.y': ta, 'options.y': tb, 'a-' + x: A.get(x, b''), 'b-' + x: B.get(x, b'')})
    c.saw(g.rules, tuple(oa), tuple(ob))
