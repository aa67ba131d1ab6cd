"""B19: byacc's debugging trace."""
import random, re
from .. import env, gen, by, ysim, report
from ..lr import Grammar, LALR, byacc_table
from .b05 import usable, special
from . import b07

TECH = 'runtime trace monitor: every line that generated parsers (ASan/UBSan) print with yydebug compared, in its place among the events, with the model\'s run; the same inputs without tracing'
NOTE = ('Held on the executions observed: state numbers are those of the y.output of the same run (matched with the reference automaton), token numbers those of the header, '
        'rule texts and names byacc\'s own spelling, in both skeletons and in backtracking parsers.')
TOOLS = ['byacc-san', 'nbyacc-san']
RULE = ('one evaluation = one input parsed with and without tracing, both logs compared with the model; distinct nontrivial = distinct (grammar, options, input) '
        'with an error, a conflict or more than ten trace lines')
ASSUMES = ['the run models (vf/ysim.py, vf/checks/b07.py)']


def plan(ctx):
    k = 6 if ctx.thorough else 1
    out = [['t', i] for i in range(200 * k)] + [['bt', i] for i in range(80 * k)]
    random.Random(ctx.seed).shuffle(out)
    return out


def naming(g, f, sp, code):
    """Symbol names, token numbers and rule numbers in byacc's order."""
    nm, codes = {0: '$end'}, {0: 0}
    for t in range(1, g.T):
        if t in sp.lits:
            codes[t] = int(sp.code[t])
            nm[t] = report.canon(codes[t])
        elif t == g.err:
            nm[t], codes[t] = 'error', 256
        else:
            nm[t] = sp.tok[t]
            codes[t] = sp.num.get(t)
    for m in re.finditer(r'(?m)^#define (TK_\w+) (\d+)$', code):
        for t in range(1, g.T):
            if nm[t] == m.group(1):
                codes[t] = int(m.group(2))
    order = []
    for i, (l, r) in enumerate(g.rules):
        if l not in f.midof:
            order += [f.midof[x] for x in r if x in f.midof] + [i]
    k = 0
    for n in range(g.T, g.T + g.N):
        if n not in f.midof:
            nm[n] = sp.nt[n]
    for i in order:
        if g.rules[i][0] in f.midof:
            k += 1
            nm[g.rules[i][0]] = '$$%d' % k
    return nm, codes, {i: j + 1 for j, i in enumerate(order)}


def states(a, rep, nm):
    """Model state -> number in the report, by kernel."""
    to, todo = {0: 0}, [0]
    # the state after the start symbol is not always listed as a goto
    while todo:
        s = todo.pop()
        R = rep['states'][to[s]]
        moves = dict(R['goto'])
        moves.update(R['shift'])
        moves.update((y[0], y[2]) for y in R['trial'] if y[1] == 'shift')
        for x, q in a.trans[s].items():
            if nm[x] in moves:
                k = moves[nm[x]]
                if q in to:
                    if to[q] != k:
                        raise report.Bad('two numbers for one state')
                else:
                    to[q] = k
                    todo.append(q)
    if len(set(to.values())) != len(to):
        raise report.Bad('two states share a number')
    return to


def parse(text, prefix):
    """Runs of the driver: list of event lists, trace lines starting with |."""
    runs, cur = [], []
    p = 0
    pat = re.compile(r'(%sdebug.*)\n|( =\d+)[^\n]*\n| (\S+)' % re.escape(prefix))
    while p < len(text):
        m = pat.match(text, p)
        if not m:
            return runs, text[p:p + 200]
        if m.group(1):
            cur.append('|' + m.group(1))
        elif m.group(2):
            cur.append(m.group(2).strip())
            runs.append(cur)
            cur = []
        else:
            e = m.group(3)
            # an event may be followed directly by a trace line
            k = e.find(prefix + 'debug')
            if k > 0:
                cur.append(e[:k])
                p += 1 + k
                continue
            cur.append(e)
        p = m.end()
    return runs, None


def same(model, seen):
    for i, m in enumerate(model):
        if i >= len(seen):
            return i
        s = seen[i]
        if m == s:
            continue
        if m[0] == '|':
            if '=?' not in m or not re.fullmatch(re.escape(m).replace(r'=\?', r'=-?\d+'), s):
                return i
        elif ysim.same([m], [s]) is not None:
            if not ('?' in m and m.split(',')[0] == s.split(',')[0]):
                return i
    return None if len(seen) == len(model) else len(model)


TOS = r'''
#define YYSTYPE_TOSTRING(s, v) vf_tos((unsigned)(s) < YYUNDFTOKEN ? yyname[s] : 0, (int)(v))
static const char *vf_tos(const char *n, int v) { static char b[8][200]; static int k; k = (k + 1) %% 8; snprintf(b[k], 200, "%%s=%%d", n ? n : "illegal-symbol", v); return b[k]; }
'''


def tokens(I, g, rng, ins, bad):
    """Some inputs contain a token number that no token has."""
    out = []
    for x in ins:
        if bad is not None and rng.random() < 0.2:
            x = list(x)
            x.insert(rng.randint(0, len(x)), g.T + 1000)
        out.append(x)
    return out


def feed(g, ins):
    return by.feed([[g.T if y == g.T + 1000 else y for y in x] for x in ins])


def case(ctx, c):
    rng = c.rng
    bt = c.spec[0] == 'bt'
    f = by.Full()
    opts = []
    if bt:
        for _ in range(30):
            g = gen.ambiguous(rng, prec=rng.random() < 0.35, assocs='LR')
            a = LALR(g)
            P = b07.table(a)
            if P.ok and P.trial and a.nstates < 120:
                break
        else:
            return
        A = b07.Acts(g, rng)
        variant = 'byacc'
        opts = ['-B']
    else:
        x = rng.random()
        if x < 0.7:
            g = gen.error_grammar(rng)
        else:
            g = gen.conflict_free(rng, rng.choice(['tiny', 'small', 'expr', 'null', 'gadget'])) or gen.error_grammar(rng)
        if rng.random() < 0.3:
            g2, mid, midof = by.add_midrules(rng, g, rng.randint(1, 3))
            if not g2.loopy() and not byacc_table(LALR(g2)).conf:
                g, f.mid, f.midof = g2, mid, midof
        a = LALR(g)
        variant = 'byacc' if rng.random() < 0.6 else 'nbyacc'
        f.pure = rng.random() < 0.2
        f.loc = variant == 'byacc' and rng.random() < 0.2
        f.prefix = rng.choice([None, None, 'calc_', 'X'])
        f.silent = frozenset(j for j in range(len(g.rules)) if rng.random() < 0.15 and j not in f.mid)
        special(rng, g, f)
        if variant == 'byacc' and rng.random() < 0.2 and not byacc_table(a).conf:
            opts.append('-B')
            f.btpop = True
    t = byacc_table(a)
    isbt = variant == 'byacc'
    pre = f.prefix or 'yy'
    tos = isbt and rng.random() < 0.4
    if f.prefix:
        opts += ['-p', f.prefix]
    opts += ['-v', '-d'] + [o for o in ('-l', '-r') if rng.random() < 0.15]
    flags = []
    if rng.random() < 0.7:
        opts.append('-t')
    else:
        flags.append('-DYYDEBUG=1')
    if '-r' in opts:
        tos = False        # the tables file would need YYSTYPE_TOSTRING too
    sp = by.Spell(g, rng, lit=rng.choice([0, 0.4, 0.7]), num=0.15)
    decl = '#undef stderr\n#define stderr stdout\n'
    if rng.random() < 0.3 and not bt:
        decl += '%}\n%token-table\n%{\n'
    if bt:
        text = b07.emit(g, sp, rng, A).replace('#define YYSTYPE int', '#define YYSTYPE int\n' + decl, 1)
    else:
        text = by.emit_full(g, sp, rng, f, decl_extra=decl)
    if tos:
        text = text.replace('#define YYSTYPE int', '#define YYSTYPE int' + TOS % (), 1)
    # a token number that is not in use
    used = set(int(sp.code[x]) if x in sp.lits else 0 for x in range(g.T)) | set(sp.num.values())
    bad = rng.choice([599, 65000, 7, 200, 32000])
    if bad in used or not isbt and rng.random() < 0.3:
        bad = None
    if bad is not None:
        text = re.sub(r'(vf_codes\[\] = \{[^}]*)\}', lambda m: m.group(1) + ', %d }' % bad, text, count=1)
    byvar = rng.random() < 0.4
    if byvar:
        text = text.replace('        vf_pos = vf_node', '        { extern int %sdebug; %sdebug = getenv("VF_ON") != 0; }\n        vf_pos = vf_node' % (pre, pre), 1)
    c.write('g.y', text)
    r = by.run_byacc(c, variant, opts)
    files = {'g.y': text, 'cmd': '%s %s g.y; cc %s\n' % (variant, ' '.join(opts), ' '.join(flags)), 'stderr': r.err}
    if r.slow:
        return c.inconclusive('generator slow')
    if r.bad() or r.rc:
        return c.violation('generator', '%s %s: %s (exit %s)\n%s' % (variant, opts, r.bad() or 'fails', r.rc, r.etext[:1500]), files)
    src = ['y.code.c'] if '-r' in opts else ['y.tab.c']
    if '-r' in opts:
        src.append('y.tab.c')
    rc, msg = env.compile_c(src, 'p', cwd=c.dir, flags=tuple(flags))
    if rc:
        return c.violation('compile', 'the generated parser does not compile:\n' + msg[:2000], files)
    otext = open(c.path('y.output'), 'rb').read()
    files['y.output'] = otext
    try:
        rep = report.parse_output(otext.decode('latin-1'))
        nm, codes, num = naming(g, f, sp, open(c.path('y.tab.h'), 'rb').read().decode('latin-1'))
        to = states(a, rep, nm)
    except (report.Bad, ValueError, KeyError, IndexError, AttributeError) as e:
        return c.violation('report', 'unexpected report: %r' % e, files)
    if a.accept_state not in to:
        m = re.search(r'#define YYFINAL (\d+)', open(c.path(src[0]), 'rb').read().decode('latin-1'))
        to[a.accept_state] = int(m.group(1))
    un = 'illegal-symbol'
    n0 = dict(nm)
    if not isbt:
        n0[0] = 'end-of-file'
        if g.err is not None:
            n0[g.err] = un          # this skeleton has no name for a 256 that the scanner returns
    tr = ysim.Trace(isbt, pre, to, lambda x: (codes[x], n0[x]) if x in codes else (bad, un),
                    lambda i: (num[i], '%s :%s' % (nm[g.rules[i][0]], ''.join(' ' + nm[y] for y in g.rules[i][1]))), lambda x: nm[x], tos)
    I = gen.Inputs(g, a, rng)
    if bt:
        ins, want, plain = [], [], []
        for x in I.many(t, 25, 15, 8, 120, 20, 30) + I.many(t, 4, 3, 0, 20, 50, 80):
            try:
                m = b07.run(P, a, A, x)
            except b07.Long:
                continue
            if 'e?' in m[0]:
                continue
            ins.append(x)
            plain.append(m[0])
            want.append(b07.run(P, a, A, x, tr=tr)[0])
    else:
        sim = ysim.YSim(a, t, f)
        ins = usable(sim, tokens(I, g, rng, I.many(t, 10, 20, 8, 60, 15, 40) + gen.stress_inputs(I, t, rng, 40), bad))
        plain = [sim.run(x)[0] for x in ins]
        sim.tr = tr
        sim.bound = (200, 10000, 2, True)
        if f.pure:
            sim.bound = (200, 10000, 2, False)
        if not isbt:
            tr.grow = lambda n: []
        want = [sim.run(x)[0] for x in ins]
    if not ins:
        return
    what = '%s %s' % (variant, ' '.join(opts))
    c.count('grammars')
    for on in (False, True):
        e = {}
        if on:
            e = {'VF_ON': '1'} if byvar else {'YYDEBUG': rng.choice(['1', '3'])}
        r = env.run(['./p'], feed(g, ins), cwd=c.dir, cpu=25, env=e)
        if r.slow:
            return c.inconclusive('driver slow')
        fl = dict(files, input=feed(g, ins))
        if r.bad() or r.rc:
            return c.violation('parser-run', '%s: the parser %s%s (exit %s)\n%s' % (what, r.bad() or 'stopped', ' while tracing' if on else '', r.rc, r.etext[:2500]), fl)
        runs, rest = parse(r.out.decode('latin-1'), pre)
        if rest is not None or len(runs) != len(ins):
            return c.violation('trace-text', '%s: %d of %d runs; unexpected output %r' % (what, len(runs), len(ins), rest), dict(fl, output=r.out))
        for x, got, m in zip(ins, runs, want if on else plain):
            c.evals += on
            got = [y for y in got if not re.fullmatch(r'[nc]\d+', y)]
            k = same(m, got)
            if k is not None:
                return c.violation('trace' if on else 'run', '%s%s: item %d is %s, expected %s\n%s\n%s\ninput: %s\nexpected:\n%s\nobserved:\n%s' % (
                    what, ', tracing' if on else '', k, got[k] if k < len(got) else 'missing', m[k] if k < len(m) else 'none', g.text(), f.describe(),
                    x, '\n'.join(m[max(k - 8, 0):k + 5]), '\n'.join(got[max(k - 8, 0):k + 5])), dict(fl, output=r.out))
            if on:
                nl = sum(y[0] == '|' for y in m)
                c.count('trace lines', nl)
                if nl > 10:
                    c.saw(g.rules, tuple(opts), tuple(x))
                    if nl > 14:
                        c.sample(dict(grammar=g.text()[:300], trace=[y for y in got if y[0] == '|'][:16]))
