"""B08: byacc's parser stacks under limits and failing allocations; pure parsers nested and in threads."""
import random
from .. import env, gen, by, ysim
from ..lr import LALR, byacc_table
from .b05 import usable, special
from .b06 import assign_dest
from . import b07
from .l07 import DEEP, deep_inputs

TECH = 'ASan/UBSan/TSan plus runtime event monitor: stack limits, failing allocators, deep nesting, nested and concurrent pure parsers compared with a model'
NOTE = ('Held on the executions observed. Every allocation of a run is made to fail in turn (up to a limit); thread runs are watched by ThreadSanitizer while 4 '
        'threads parse the same inputs at different offsets; the schedules are the ones the OS produced. Defects of the skeletons are recorded as findings.')
TOOLS = ['byacc-san', 'nbyacc-san']
RULE = ('one evaluation = one token sequence parsed under a stack limit, with failing allocations, from an action of another parse or in one of four threads, its complete '
        'event log compared with the model; distinct nontrivial = distinct (grammar, limits, input) that overflowed, ran out of memory, nested more than 50 deep or shared '
        'the run with other parses')
ASSUMES = ['the run model (vf/ysim.py, vf/checks/b07.py): a stack of n entries holds the start state and n-1 symbols']

FINDINGS = {}


def plan(ctx):
    k = 6 if ctx.thorough else 1
    out = ([['size', i] for i in range(90 * k)] + [['deep', i] for i in range(25 * k)] + [['alloc', i] for i in range(70 * k)] + [['btsize', i] for i in range(40 * k)]
           + [['nest', i] for i in range(30 * k)] + [['tsan', i] for i in range(12 * k)])
    random.Random(ctx.seed).shuffle(out)
    return [['known', x] for x in sorted(FINDINGS)] + out


FORK = r'''
#include <unistd.h>
#include <sys/wait.h>
int main(void)
{
    int i, w, k;
    static char vf_buf[1 << 20];
    setvbuf(stdout, vf_buf, _IOFBF, sizeof vf_buf);
    while (scanf("%%d %%d %%d", &vf_fail, &vf_again, &vf_n) == 3) {
        vf_t = calloc(vf_n + 1, sizeof(int));
        for (i = 0; i < vf_n; i++) if (scanf("%%d", &vf_t[i]) != 1) return 9;
        fflush(stdout);
        if ((i = fork())) { waitpid(i, &w, 0); free(vf_t); if (w) return 6; continue; }
        for (k = 0; k <= vf_again; k++) {
            vf_pos = vf_node = vf_nev = 0;
            memset(vf_fired, 0, sizeof vf_fired);
            i = %(p)sparse();
            printf(" =%%d |", i);
            vf_fail = 0;
        }
        printf("\n");
        fflush(stdout);
        _exit(0);
    }
    return 0;
}
'''
ALLOC = r'''
static int vf_fail, vf_again, vf_cnt;
static void *vf_realloc(void *p, size_t n) { if (vf_fail && ++vf_cnt >= vf_fail) { vf_ev(" m"); return 0; } return realloc(p, n); }
static void *vf_malloc(size_t n) { if (vf_fail && ++vf_cnt >= vf_fail) { vf_ev(" m"); return 0; } return malloc(n); }
#define realloc vf_realloc
#define malloc vf_malloc
'''


def grammar(rng):
    x = rng.random()
    if x < 0.4:
        return gen.g_text(rng.choice(DEEP))
    if x < 0.75:
        return gen.error_grammar(rng)
    return gen.conflict_free(rng, rng.choice(['tiny', 'small', 'expr', 'null', 'gadget'])) or gen.g_text(DEEP[0])


def build(c, g, f, rng, sp, variant, opts, flags=(), decl='', main=None, extra=()):
    text = by.emit_full(g, sp, rng, f, decl_extra=decl, extra=extra)
    if main:
        k = text.rindex('int main(void)')
        text = text[:k] + main
    c.write('g.y', text)
    r = by.run_byacc(c, variant, opts)
    files = {'g.y': text, 'cmd': '%s %s g.y; cc %s\n' % (variant, ' '.join(opts), ' '.join(flags)), 'stderr': r.err}
    if r.slow:
        c.inconclusive('generator slow')
        return None
    if r.bad() or r.rc != 0:
        c.violation('generator', '%s %s: %s (exit %s)\n%s' % (variant, opts, r.bad() or 'fails', r.rc, r.etext[:1500]), files)
        return None
    rc, msg = env.compile_c(['y.tab.c'], 'p', cwd=c.dir, flags=tuple(flags))
    if rc:
        c.violation('compile', 'the generated parser does not compile:\n' + msg[:2000], files)
        return None
    return files


def inputs_for(rng, g, a, t, d):
    I = gen.Inputs(g, a, rng)
    ins = I.many(t, 8, 14, 6, 40, 15, 60) + gen.stress_inputs(I, t, rng, 40)
    ins += deep_inputs(rng, I, a, t, g, d)
    for n in (d // 2, d - 2, d - 1, d, d + 1):
        x = g.sentence(rng, max(n, 1))
        if x:
            ins.append(x[:6 * d])
    return ins


def show(m):
    return ' '.join(m)[:1200]


def bad(c, files, kind, what, g, f, x, m, ev, line, feed):
    k = ysim.same(m, ev)
    fl = dict(files)
    fl['input'] = feed
    fl['events'] = line
    c.violation(kind, '%s: event %s is %s, expected %s\n%s\n%s\ninput: %s\nexpected: %s\nobserved: %s' % (
        what, k, ev[k] if k < len(ev) else 'missing', m[k] if k < len(m) else 'none', g.text(), f.describe(),
        ' '.join(g.name(y) for y in x)[:1500], show(m[max(0, k - 60):]), show(ev[max(0, k - 60):])), fl)


def case(ctx, c):
    kind = c.spec[0]
    if kind == 'known':
        return known(ctx, c)
    if kind == 'btsize':
        return btsize(ctx, c)
    if kind in ('nest', 'tsan'):
        return nest(ctx, c)
    rng = c.rng
    for _ in range(30):
        g = grammar(rng)
        f = by.Full()
        a = LALR(g)
        t = byacc_table(a)
        variant = 'byacc' if rng.random() < 0.6 else 'nbyacc'
        opts = [o for o in ('-t', '-l') if rng.random() < 0.15]
        if variant == 'byacc' and rng.random() < 0.2:
            if t.conf:
                continue
            opts.append('-B')
            f.btpop = True
        break
    bt = variant == 'byacc'
    B = '-B' in opts
    f.pure = rng.random() < (0 if B and kind == 'alloc' else 0.3)
    f.loc = bt and rng.random() < 0.3
    f.silent = frozenset(j for j in range(len(g.rules)) if rng.random() < 0.1)
    if rng.random() < 0.3:
        special(rng, g, f)
    sp = by.Spell(g, rng, lit=rng.choice([0, 0.3]), num=0)
    if bt and rng.random() < 0.5 and not (B and kind == 'alloc'):
        assign_dest(random.Random(rng.random()), g, f, sp.lits)
    init, mx = 200, 10000
    flags = []
    if kind != 'deep':
        if bt and rng.random() < 0.75:
            init = rng.choice([2, 2, 3, 4, 5, 7, 16, 50])
            flags.append('-DYYINITSTACKSIZE=%d' % init)
        if rng.random() < 0.75:
            mx = rng.choice([2, 3, 4, 5, 6, 8, 9, 12, 17, 33, 64, 250, 410])
            flags.append('-D%s=%d' % (rng.choice(['YYMAXDEPTH', 'YYSTACKSIZE']), mx))
        mx = mx if mx > init else init          # the first allocation is never cut down
    noleak = rng.random() < 0.3
    if noleak:
        flags.append('-DYY_NO_LEAKS')
    keeps = not (f.pure or noleak)
    res = 2 if bt else 1
    decl, main = '', None
    if kind == 'alloc':
        decl, main = ALLOC, FORK % dict(p='yy')
        if f.pure:
            flags.append('-DYYPURE_')
        if B:
            init, mx = 200, 10000
            flags = [x for x in flags if 'NO_LEAKS' in x]
            if rng.random() < 0.5:
                init = 3
                flags.append('-DYYINITSTACKSIZE=3')
    files = build(c, g, f, rng, sp, variant, opts, flags=flags, decl=decl, main=main)
    if files is None:
        return
    d = rng.choice([8, 25, 60, 130]) if kind != 'deep' else rng.choice([150, 420, 900])
    if kind == 'deep' and rng.random() < 0.35:
        d = rng.choice([3000, 9900, 10400])
    if mx < 1000:
        d = min(d, mx + 4)
    sim = ysim.YSim(a, t, f)
    ins = inputs_for(rng, g, a, t, d)
    if kind == 'deep':
        ins = [x for x in ins if len(x) > 20]
        if d > 1000:
            ins = rng.sample(ins, min(len(ins), 12))
    ins = usable(sim, ins)
    if not ins:
        return
    what = '%s %s [%s, stack of %d up to %d]' % (variant, ' '.join(opts), kind, init, mx)
    c.count('grammars')
    sim.bound = (init, mx, res, keeps)
    if f.loc:
        # finding location-past-stack
        good = []
        for x in ins:
            cap = sim.cap
            sim.run(x, 200000)
            if sim.hazard:
                sim.cap = cap
                c.count('inputs left out (known finding)')
            else:
                good.append(x)
        ins = good
        sim.cap = 0
    if kind != 'alloc':
        lines = by.drive(c, './p', ins, what, files)
        if lines is None:
            return
        for x, line in zip(ins, lines):
            ev, n, _ = by.split_line(line)
            ev = ['?' if y[0] == '?' else y for y in ev]
            m, nerrs = sim.run(x, 200000)
            c.evals += 1
            if ysim.same(m, ev) is not None:
                return bad(c, files, kind, what, g, f, x, m, ev, line[:4000], by.feed([x]))
            if n is not None and n != nerrs:
                return c.violation(kind, '%s: yynerrs is %d, expected %d\n%s' % (what, n, nerrs, g.text()), dict(files, input=by.feed([x])))
            o = '?' in m
            c.count('overflows reported', o)
            c.count('parses more than 1000 deep', sim.peak > 1000)
            if o or sim.peak > 50:
                c.saw(g.rules, init, mx, tuple(x))
                c.sample(dict(grammar=g.text()[:400], limits=[init, mx], peak=sim.peak, events=show(ev)[:300]))
        return
    # failing allocations
    per = 3 if f.loc else 2
    if B:
        sim.bound = None
    ins = rng.sample(ins, min(len(ins), 50))
    jobs = []
    for x in ins:
        for k in rng.sample(range(1, 14), 2):
            if f.dest and k <= per:
                continue            # finding destructor-without-stack
            again = 1 if f.pure or noleak or (k - 1 - (1 if B else 0)) % per == 0 or B and k == 1 else 0
            jobs.append((x, k, again))
    jobs = jobs[:90]
    if not jobs:
        return
    r = env.run(['./p'], ''.join('%d %d %d %s\n' % (k, ag, len(x), ' '.join(map(str, x))) for x, k, ag in jobs), cwd=c.dir, cpu=30)
    if r.slow:
        return c.inconclusive('driver slow')
    lines = [y for y in r.text.split('\n') if '|' in y]
    if r.bad() or r.rc or len(lines) != len(jobs) or any(y.count('|') != j[2] + 1 for y, j in zip(lines, jobs)):
        k = next((i for i, (y, j) in enumerate(zip(lines, jobs)) if y.count('|') != j[2] + 1), len(lines))
        j = jobs[min(k, len(jobs) - 1)]
        return c.violation('alloc-crash', '%s: %s (exit %s) when allocation %d and the following fail, input %s\n%s' % (
            what, r.bad() or 'stopped', r.rc, j[1], j[0], r.etext[:2500]), dict(files, input='%d %d %d %s\n' % (j[1], j[2], len(j[0]), ' '.join(map(str, j[0])))))
    for (x, k, ag), line in zip(jobs, lines):
        parts = line.split('|')
        sim.cap = 0
        for n in range(ag + 1):
            ev = ['?' if y[0] == '?' else y for y in parts[n].split()]
            c.evals += 1
            failed = 'm' in ev
            if B:
                sim.bound = None
                m, _ = sim.run(x, 200000)
                if n == 0 and failed:
                    got = [y for y in ev if y != 'm']
                    w = [y for y in m if y[0] != 'd']
                    got = [y for y in got if y[0] != 'd']
                    ok = ysim.same(w[:len(got) - 2] + ['?', '=2'], got) is None
                    if not ok:
                        return bad(c, files, 'alloc', what + ' allocation %d fails' % k, g, f, x, m, ev, line[:4000], '%d 0 %d %s\n' % (k, len(x), ' '.join(map(str, x))))
                    c.count('runs out of memory reported')
                    c.saw(g.rules, k, init, tuple(x))
                    continue
            else:
                sim.bound = (init, mx, res, keeps)
                m, _ = sim.run(x, 200000, seen=ev)
            if ysim.same(m, ev) is not None:
                return bad(c, files, 'alloc', what + ' (allocation %d fails, call %d)' % (k, n + 1), g, f, x, m, ev, line[:4000], '%d %d %d %s\n' % (k, ag, len(x), ' '.join(map(str, x))))
            if failed:
                c.count('runs out of memory reported')
                c.saw(g.rules, k, init, mx, tuple(x))
                c.sample(dict(grammar=g.text()[:300], failing=k, events=show(ev)[:300]))
            if n:
                c.count('calls after a failure' if 'm' in parts[0] else 'calls repeated')


def btsize(ctx, c):
    """-B parsers of conflicting grammars with small stacks: the run is the unlimited one, or a prefix of it that reports the overflow."""
    rng = c.rng
    for _ in range(30):
        g = gen.ambiguous(rng, prec=rng.random() < 0.3, assocs='LR')
        a = LALR(g)
        P = b07.table(a)
        if P.ok and P.trial and a.nstates < 120:
            break
    else:
        return
    A = b07.Acts(g, rng)
    sp = by.Spell(g, rng, lit=0.2)
    text = b07.emit(g, sp, rng, A)
    c.write('g.y', text)
    r = by.run_byacc(c, 'byacc', ['-B'])
    init = rng.choice([2, 3, 4, 6, 10])
    mx = rng.choice([init, init + 1, init + 3, 2 * init, 12, 20, 10000])
    flags = ['-DYYINITSTACKSIZE=%d' % init, '-DYYMAXDEPTH=%d' % mx] + rng.choice([[], ['-DYYLVQUEUEGROWTH=2']])
    files = {'g.y': text, 'cmd': 'byacc -B g.y; cc %s\n' % ' '.join(flags), 'stderr': r.err}
    if r.slow:
        return c.inconclusive('slow')
    if r.bad() or r.rc:
        return c.violation('generator', 'byacc -B: %s (exit %s)\n%s' % (r.bad(), r.rc, r.etext[:800]), files)
    rc, msg = env.compile_c(['y.tab.c'], 'p', cwd=c.dir, flags=tuple(flags))
    if rc:
        return c.violation('compile', 'the generated parser does not compile:\n' + msg[:2000], files)
    I = gen.Inputs(g, a, rng)
    t = byacc_table(a)
    ins, want = [], []
    for x in I.many(t, 30, 20, 8, 120, 25, 40) + I.many(t, 6, 4, 0, 20, 60, 120):
        try:
            m = b07.run(P, a, A, x)[0]
        except b07.Long:
            continue
        if 'e?' in m:
            continue
        ins.append(x)
        want.append(m)
    if not ins:
        return
    lines = by.drive(c, './p', ins, 'byacc -B ' + ' '.join(flags), files)
    if lines is None:
        return
    c.count('grammars')
    for x, m, line in zip(ins, want, lines):
        got, _, _ = by.split_line(line)
        c.evals += 1
        over = '?' in got
        w = m
        if over:
            w = m[:len(got) - 2] + ['?', '=2']
        ok = len(got) == len(w) and all(p == q or 'e' not in q and '?' in q and p.split(',')[0] == q.split(',')[0] for p, q in zip(got, w))
        if ok and over and mx >= 10000:
            ok = False
        if not ok:
            fl = dict(files, input=by.feed([x]), events=line)
            return c.violation('btsize', 'byacc -B %s: the run is neither the expected one nor a prefix of it ending with the overflow\n%s\n%s\ninput: %s\nexpected: %s\nobserved: %s' % (
                ' '.join(flags), g.text(), text.split('%%')[1][:1500], ' '.join(g.name(y) for y in x), ' '.join(m)[:1000], line[:1000]), fl)
        c.count('overflows reported', over)
        if over:
            c.saw(g.rules, init, mx, tuple(x))


NEST = r'''
%%pure-parser
%(loc)s
%%parse-param { struct ctx *vc }
%%lex-param { struct ctx *vc }
%%{
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <pthread.h>
struct ctx { int idx, pos, node, depth; char *log; size_t len, cap; struct ctx *last; };
#define YYSTYPE int
static int vf_act(struct ctx *c, int rule, int n, ...);
static void vf_ev(struct ctx *c, const char *fmt, ...);
#define yyerror %(p)serror
void %(p)serror(%(ep)sstruct ctx *c, const char *s);
%%}
'''
NESTMAIN = r'''
static int vf_codes[] = { 0%(codes)s };
static int **vf_in, *vf_len, vf_cnt, vf_threads;
static pthread_mutex_t vf_mx = PTHREAD_MUTEX_INITIALIZER;
static void vf_ev(struct ctx *c, const char *fmt, ...)
{
    va_list ap; int k;
    if (c->cap < c->len + 64) { c->cap = 2 * c->cap + 256; c->log = realloc(c->log, c->cap); }
    va_start(ap, fmt); k = vsnprintf(c->log + c->len, 60, fmt, ap); va_end(ap);
    c->len += k;
    if (c->len > 4000000) { printf("toomany\n"); exit(5); }
}
static void vf_parse(int idx, int depth)
{
    struct ctx c; int r;
    memset(&c, 0, sizeof c);
    c.idx = idx; c.depth = depth;
    r = %(p)sparse(&c);
    pthread_mutex_lock(&vf_mx);
    printf("%%d%%s =%%d\n", idx, c.log ? c.log : "", r);
    pthread_mutex_unlock(&vf_mx);
    free(c.log);
}
static int vf_act(struct ctx *c, int rule, int n, ...)
{
    va_list ap; int i;
    vf_ev(c, " r%%d", rule);
    va_start(ap, n);
    for (i = 0; i < n; i++) vf_ev(c, ",%%d", va_arg(ap, int));
    va_end(ap);
    if (!vf_threads && c->depth < 3 && (c->node * 7 + c->idx + rule) %% %(every)d == 0)
        vf_parse((c->idx * 5 + c->node + 1) %% vf_cnt, c->depth + 1);
    return 100001 + c->node++;
}
int %(p)slex(YYSTYPE *lvalp%(lsig)s, struct ctx *c)
{
    int k = c->pos++;
    vf_ev(c, " l");
    *lvalp = c->pos;
    %(lset)s
    return k < vf_len[c->idx] ? vf_codes[vf_in[c->idx][k]] : 0;
}
void %(p)serror(%(ep)sstruct ctx *c, const char *s) { vf_ev(c, " e"); }
static void *vf_run(void *p)
{
    int k = *(int *)p, i;
    for (i = 0; i < vf_cnt; i++) vf_parse((i + 7 * k) %% vf_cnt, 0);
    return 0;
}
int main(int argc, char **argv)
{
    int n, i, k, arg[4]; pthread_t th[4];
    vf_threads = argc > 1;
    vf_in = calloc(2000, sizeof *vf_in); vf_len = calloc(2000, sizeof *vf_len);
    while (scanf("%%d", &n) == 1) {
        vf_in[vf_cnt] = malloc(sizeof(int) * (n + 1)); vf_len[vf_cnt] = n;
        for (i = 0; i < n; i++) if (scanf("%%d", &vf_in[vf_cnt][i]) != 1) return 9;
        vf_cnt++;
    }
    if (!vf_threads) { k = 0; vf_run(&k); }
    else {
        for (k = 0; k < 4; k++) { arg[k] = k; pthread_create(&th[k], 0, vf_run, &arg[k]); }
        for (k = 0; k < 4; k++) pthread_join(th[k], 0);
    }
    for (i = 0; i < vf_cnt; i++) free(vf_in[i]);
    free(vf_in); free(vf_len);
    return 0;
}
'''


def nest(ctx, c):
    rng = c.rng
    kind = c.spec[0]
    for _ in range(30):
        g = grammar(rng)
        a = LALR(g)
        t = byacc_table(a)
        if not t.conf or rng.random() < 0.3:
            break
    f = by.Full()
    variant = 'byacc' if rng.random() < 0.6 else 'nbyacc'
    bt = variant == 'byacc'
    loc = bt and rng.random() < 0.3
    f.silent = frozenset(j for j in range(len(g.rules)) if rng.random() < 0.1)
    p = rng.choice(['yy', 'yy', 'calc_'])
    sp = by.Spell(g, rng, lit=0.3, num=0)
    lsig = ', YYLTYPE *llocp' if loc else ''
    lset = 'llocp->first_line = llocp->last_line = llocp->first_column = llocp->last_column = c->pos;' if loc else ''
    opts = ['-p', p] if p != 'yy' else []
    text = NEST % dict(loc='%locations' if loc else '', p=p, ep='void *lp, ' if loc else '')
    text += '\n'.join(by.decls(g, sp, rng)) + '\n'
    if bt and rng.random() < 0.5:
        f.dest = {x: 'u' for x in range(1, g.T + g.N) if x != g.err}
        text += '%destructor { vf_ev(vc, " du:%d", (int)$$); } <>\n'
    text += '%%start %s\n%%%%\n' % sp.nt[g.start]

    def act(i):
        if i in f.silent:
            return None
        k = len(g.rules[i][1])
        return '{ $$ = vf_act(vc, %d, %d%s); }' % (i, k, ''.join(', $%d' % (j + 1) for j in range(k)))
    text += '\n'.join(by.rules_text(g, sp, act, rng)) + '\n%%\n'
    text += NESTMAIN % dict(codes=''.join(', ' + sp.code[x] for x in range(1, g.T)), p=p, lsig=lsig, lset=lset,
                            ep='void *lp, ' if loc else '', every=rng.choice([3, 5, 11]))
    c.write('g.y', text)
    r = by.run_byacc(c, variant, opts)
    flags = ['-pthread'] + rng.choice([[], ['-DYYINITSTACKSIZE=3']] if bt and not loc else [[]])
    files = {'g.y': text, 'cmd': '%s %s g.y; cc %s\n' % (variant, ' '.join(opts), ' '.join(flags)), 'stderr': r.err}
    if r.slow:
        return c.inconclusive('slow')
    if r.bad() or r.rc:
        return c.violation('generator', '%s: %s (exit %s)\n%s' % (variant, r.bad(), r.rc, r.etext[:800]), files)
    fl = list(flags)
    if kind == 'tsan':
        fl += ['-fsanitize=thread', '-g1']
    rc, msg = env.compile_c(['y.tab.c'], 'p', cwd=c.dir, flags=tuple(fl), san=kind != 'tsan')
    if rc:
        return c.violation('compile', 'the generated parser does not compile:\n' + msg[:2000], files)
    I = gen.Inputs(g, a, rng)
    sim = ysim.YSim(a, t, f)
    ins = usable(sim, I.many(t, 10, 20, 6, 50, 15, 40) + gen.stress_inputs(I, t, rng, 30))[:120]
    if not ins:
        return
    what = '%s %s pure [%s]' % (variant, ' '.join(opts), kind)
    r = env.run(['./p'] + (['t'] if kind == 'tsan' else []), by.feed(ins), cwd=c.dir, cpu=60, env={'TSAN_OPTIONS': 'exitcode=66:halt_on_error=0'})
    if r.slow:
        return c.inconclusive('driver slow')
    files['input'] = by.feed(ins)
    lines = [y for y in r.text.split('\n') if ' =' in y]
    race = 'ThreadSanitizer' in r.etext
    if race and 'data race' not in r.etext and not lines:
        return c.inconclusive('ThreadSanitizer cannot run here: ' + r.etext[:300])
    need = len(ins) * (4 if kind == 'tsan' else 1)
    if r.bad() or r.rc or race or len(lines) < need:
        return c.violation('pure-run', '%s: %s (exit %s), %d of %d parses\n%s' % (what, 'data race' if race else r.bad() or 'stopped', r.rc, len(lines), need, r.etext[:3000]), files)
    models = {}
    c.count('grammars')
    for line in lines:
        ev = line.split()
        i = int(ev.pop(0))
        if i not in models:
            models[i] = sim.run(ins[i])[0]
        m = models[i]
        c.evals += 1
        if ysim.same(m, ev) is not None:
            return bad(c, files, kind, what, g, f, ins[i], m, ev, line[:4000], by.feed(ins))
        c.count('parses in threads' if kind == 'tsan' else 'nested or enclosing parses')
        c.saw(g.rules, kind, tuple(ins[i]))


# ---------------------------------------------------------------- defects of the skeletons, recorded
HEAD = '%{\n#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n'


def finding(key, opts, text, want, msg, flags=()):
    FINDINGS[key] = (opts, text, want, msg, flags)


finding('reparse-after-backtracking', ['-B'], HEAD + r'''
static const char *in; int yylex(void) { return *in ? *in++ : 0; }
void yyerror(const char *s) { printf("%s\n", s); }
%}
%%
s : l { YYACCEPT; } rest ;
l : a 'x' | b 'x' ;
a : 'y' ;
b : 'y' ;
rest : | rest 'x' ;
%%
int main(void) { in = "yxx"; printf("%d\n", yyparse()); in = "yx"; printf("%d\n", yyparse()); return 0; }
''', '0\n0\n', 'tokens that a -B parse has read ahead but not used are given to the next call of yyparse')
finding('pure-backtracking', ['-B'], r'''%pure-parser
%parse-param { const char **in }
%lex-param { const char **in }
''' + HEAD + r'''
#define YYSTYPE int
int yylex(int *v, const char **in) { return **in ? *(*in)++ : 0; }
void yyerror(const char **in, const char *s) { printf("%s\n", s); }
static int depth; static void inner(void);
%}
%%
s : l { if (!depth) inner(); } 'x' ;
l : a 'x' | b 'x' ;
a : 'y' ;
b : 'y' ;
%%
static void inner(void) { const char *t = "yxx"; depth = 1; printf("inner %d\n", yyparse(&t)); }
int main(void) { const char *t = "yxx"; printf("outer %d\n", yyparse(&t)); return 0; }
''', 'inner 0\nouter 0\n', 'a pure -B parser keeps its search state and token queue in static variables, so nested parses disturb each other')
finding('destructor-without-stack', [], HEAD + r'''
static void *none(void *p, size_t n) { return 0; }
#define realloc none
int yylex(void) { return 0; }
void yyerror(const char *s) { printf("%s\n", s); }
%}
%token <i> A
%union { int i; }
%destructor { } <*>
%%
s : A ;
%%
int main(void) { printf("%d\n", yyparse()); return 0; }
''', 'yacc stack overflow\n2\n', 'with %destructor, a failing first allocation makes the cleanup read the missing stack')
finding('initial-size-one', [], HEAD + r'''
#define YYINITSTACKSIZE 1
int yylex(void) { return 0; }
void yyerror(const char *s) { printf("%s\n", s); }
%}
%%
s : ;
%%
int main(void) { printf("%d\n", yyparse()); return 0; }
''', '0\n', 'the final state is pushed without a check, past the end of a stack of YYINITSTACKSIZE 1')
finding('call-after-half-growth', [], HEAD + r'''
#define YYINITSTACKSIZE 3
static int calls, fail = 4;
static char arena[4096], *top = arena + 4096;
/* a malloc that hands out falling addresses; allocation 4 (values, first growth) fails */
static void *low(void *p, size_t n) { char *q; if (++calls == fail) return 0; q = top -= (n + 15) / 16 * 16 + 1024; if (p) memcpy(q, p, n / 2); return q; }
#define realloc low
static const char *in; int yylex(void) { return *in ? *in++ : 0; }
void yyerror(const char *s) { printf("%s\n", s); }
%}
%union { struct { int v; char pad[100]; } b; }
%%
s : 'a' s | 'b' ;
%%
int main(void) { in = "aab"; printf("%d\n", yyparse());
    fail = 5; in = "aaaaaaaaaaaab"; printf("%d\n", yyparse()); return 0; }
''', 'yacc stack overflow\n2\nyacc stack overflow\n2\n', 'a growth that fails half-way leaves s_last in the old block, so the next call of yyparse can run past its stacks without growing them')
finding('location-past-stack', [], '%locations\n' + HEAD + r'''
#define YYINITSTACKSIZE 4
static const char *in = "aa"; int yylex(void) { return *in ? *in++ : 0; }
void yyerror(void *l, const char *s) { printf("%s\n", s); }
%}
%%
s : 'a' 'a' n m ;
n : ;
m : ;
%%
int main(void) { printf("%d\n", yyparse()); return 0; }
''', '0\n', 'with %locations, reducing an empty rule on a full stack reads the location entry past its end (yystack.p_mark[1-yym] with yym 0)')
finding('overflow-loses-value', [], HEAD + r'''
#define YYMAXDEPTH 2
#define YYINITSTACKSIZE 2
static const char *in = "ab"; int yylex(void);
void yyerror(const char *s) { printf("%s\n", s); }
%}
%union { int i; }
%token <i> 'a' 'b'
%type <i> n s
%destructor { printf("destroy %d\n", $$); } <*>
%%
s : 'a' n 'b' { $$ = 0; } ;
n : { $$ = 7; } ;
%%
int yylex(void) { yylval.i = *in; return *in ? *in++ : 0; }
int main(void) { printf("%d\n", yyparse()); return 0; }
''', None, 'the value of the reduction that overflows the stack is dropped without its destructor')


def known(ctx, c):
    key = c.spec[1]
    opts, text, want, msg, flags = FINDINGS[key]
    c.write('g.y', text)
    r = by.run_byacc(c, 'byacc', opts)
    files = {'g.y': text, 'cmd': 'byacc %s g.y\n' % ' '.join(opts)}
    rc, m = env.compile_c(['y.tab.c'], 'p', cwd=c.dir, flags=tuple(flags))
    if r.rc or r.bad() or rc:
        return c.violation('generator', 'byacc %s: %s\n%s' % (opts, r.etext[:800], m[:1500]), files)
    r = env.run(['./p'], cwd=c.dir)
    c.evals += 1
    if want is None:
        ok = not r.bad() and 'destroy 7\n' in r.text
    else:
        ok = not r.bad() and r.text == want
    if not ok:
        c.violation(key, '%s: %s %s %s' % (msg, r.bad() or 'wrong run', repr(r.text[:300]), r.etext[:800]), files)
