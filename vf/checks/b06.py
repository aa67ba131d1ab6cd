"""B06: %destructor runs exactly once for each discarded value."""
import random
from .. import env, gen, by, ysim
from ..lr import LALR, byacc_table
from .b05 import build, compare, usable, special

TECH = 'runtime event monitor: generated parsers under ASan/UBSan/LSan, value life cycles compared with a model and by malloc accounting'
NOTE = ('Held on the executions observed: the complete event log (tokens, actions with operands, destructor calls with symbol class and value) '
        'equals the model\'s, and in the heap mode every value is a malloc\'d block freed exactly once (ASan double-free/use-after-free, LSan leaks).')
TOOLS = ['byacc-san']
RULE = ('one evaluation = one token sequence parsed by a generated parser with named, <tag>, <*> and <> destructors, its complete event log '
        'compared with the model; distinct nontrivial = distinct (grammar, destructors, input) in which at least one destructor ran')
ASSUMES = ['the reference automaton and the life-cycle model (vf/lr.py, vf/ysim.py)']


def plan(ctx):
    k = 6 if ctx.thorough else 1
    return [['d', i] for i in range(260 * k)] + [['heap', i] for i in range(70 * k)]


def assign_dest(rng, g, f, sp_lits):
    """Random destructor declarations; fills f.dest."""
    syms = [x for x in range(1, g.T + g.N) if x != g.err]
    named = {}
    L = 'L' if f.loc and rng.random() < 0.5 else ''
    okname = [x for x in syms if x not in sp_lits and x not in f.midof]
    style = rng.random()
    if style < 0.7:
        for x in okname:
            if rng.random() < 0.35:
                named[x] = L + 'n%d' % x
    tagd = {}
    if f.tags is not None:
        for tg in ('i', 'p', 'd', 'ix'):
            if rng.random() < 0.6:
                tagd[tg] = L + 't' + tg
    star = f.tags is not None and rng.random() < 0.5
    if star and 'p' not in tagd:
        tagd['p'] = L + 'tp'
    unt = rng.random() < 0.6
    for x in syms:
        tg = f.tags.get(x) if f.tags is not None else None
        if x in named:
            f.dest[x] = named[x]
        elif f.tags is not None and tg:
            if tg in tagd:
                f.dest[x] = tagd[tg]
            elif star:
                f.dest[x] = L + 's'
        elif unt:
            f.dest[x] = L + 'u'
    for x in sorted(set(f.dest.values())):
        if rng.random() < 0.3:
            f.djunk[x] = by.junk(rng, True)


HEAP = r'''
%%{
#include <stdio.h>
#include <stdlib.h>
typedef struct node { struct node *k[%(maxk)d]; int n; } node;
static int *vf_t, vf_n, vf_pos, vf_live, vf_made;
static node *mk(int n) { node *p = calloc(1, sizeof *p); p->n = n; vf_live++; vf_made++; return p; }
static void del(node *p) { int i; for (i = 0; i < p->n; i++) del(p->k[i]); vf_live--; free(p); }
int yylex(void);
void yyerror(const char *s);
%%}
%%union { node *n; }
'''


def heap_case(ctx, c):
    """Every value is a heap block; actions consume their operands; destructors free."""
    rng = c.rng
    g = gen.error_grammar(rng)
    a = LALR(g)
    t = byacc_table(a)
    sp = by.Spell(g, rng, lit=rng.choice([0, 0.4]))
    maxk = max([len(r) for _, r in g.rules] + [1])
    out = [HEAP % dict(maxk=maxk)]
    out += by.decls(g, sp, rng, {x: 'n' for x in range(1, g.T) if x != g.err})
    for n in range(g.T, g.T + g.N):
        out.append('%%type <n> %s' % sp.nt[n])
    out.append(rng.choice(['%destructor { del($$); } <n>', '%destructor { del($$); } <*>']))
    out.append('%%start %s' % sp.nt[g.start])
    out.append('%%')
    for i, (l, r) in enumerate(g.rules):
        body = ' '.join(sp.sym(x) for x in r)
        if g.rprec[i] is not None:
            body += ' %prec ' + sp.tok[g.rprec[i]]
        act = '$$ = mk(0); '
        k = 0
        for j, x in enumerate(r):
            if x != g.err:
                act += '$$->k[%d] = $%d; ' % (k, j + 1)
                k += 1
        act += '$$->n = %d; ' % k
        out.append('%s : %s { %s} ;' % (sp.nt[l], body, act))
    out.append('%%')
    codes = ''.join(', ' + sp.code[x] for x in range(1, g.T))
    out.append('''static int vf_codes[] = { 0%s };
int yylex(void) { vf_pos++; if (vf_pos > vf_n) return 0; yylval.n = mk(0); return vf_codes[vf_t[vf_pos - 1]]; }
void yyerror(const char *s) { printf(" e"); }''' % codes)
    out.append((by.MAIN % dict(p='yy', pre='', post='printf(" live%d made%d", vf_live, vf_made); vf_live = 0;', call=''))
               .replace('vf_node = vf_nev = 0', 'vf_made = 0'))
    text = '\n'.join(out) + '\n'
    c.write('g.y', text)
    opts = ['-B'] if rng.random() < 0.15 and not t.conf else []
    r = by.run_byacc(c, 'byacc', opts)
    files = {'g.y': text, 'cmd': 'byacc g.y\n', 'stderr': r.err}
    if r.slow:
        return c.inconclusive('slow')
    if r.bad() or r.rc != 0:
        return c.violation('generator', 'byacc: %s (exit %s)\n%s' % (r.bad() or 'fails', r.rc, r.etext[:1500]), files)
    rc, msg = env.compile_c(['y.tab.c'], 'p', ['-DYY_NO_LEAKS'], cwd=c.dir)
    if rc:
        return c.violation('compile', 'the generated parser does not compile:\n' + msg[:2000], files)
    I = gen.Inputs(g, a, rng)
    f = by.Full()
    sim = ysim.YSim(a, t, f)
    inputs = usable(sim, I.many(t, 10, 30, 10, 80, 15, 50) + gen.stress_inputs(I, t, rng, 90))
    inputs = [x for x in inputs if g.err not in x]
    lines = by.drive(c, './p', inputs, 'byacc (heap values)', files)
    if lines is None:
        return
    for toks, line in zip(inputs, lines):
        c.evals += 1
        if ' live0 ' not in line:
            f2 = dict(files)
            f2['input'] = by.feed([toks])
            return c.violation('leak', 'values left alive: %s\n%s\ninput: %s' % (line[:200], g.text(), ' '.join(g.name(x) for x in toks)), f2)
        if ' e' in line:
            c.saw(g.rules, 'heap', tuple(toks))
        c.count('heap parses')


def case(ctx, c):
    rng = c.rng
    if c.spec[0] == 'heap':
        return heap_case(ctx, c)
    if rng.random() < 0.8:
        g = gen.error_grammar(rng)
    else:
        g = gen.conflict_free(rng, rng.choice(['tiny', 'small', 'expr', 'null', 'gadget']))
    f = by.Full()
    if rng.random() < 0.3:
        g2, mid, midof = by.add_midrules(rng, g, rng.randint(1, 3))
        if not g2.loopy():
            g = g2
            f.mid, f.midof = mid, midof
    a = LALR(g)
    t = byacc_table(a)
    if f.midof and (t.rr or len(t.conf) > 0 and f.midof):
        # the order of inserted empty rules matters only for conflicts
        if t.conf:
            f.mid, f.midof = {}, {}
            return case_plain(ctx, c, gen.error_grammar(rng))
    return run_case(ctx, c, g, a, t, f)


def case_plain(ctx, c, g):
    a = LALR(g)
    return run_case(ctx, c, g, a, byacc_table(a), by.Full())


def run_case(ctx, c, g, a, t, f):
    rng = c.rng
    f.pure = rng.random() < 0.25
    f.loc = rng.random() < 0.25
    f.silent = frozenset(j for j in range(len(g.rules)) if rng.random() < 0.08 and j not in f.mid)
    lit = rng.choice([0, 0.3])
    if rng.random() < 0.5:
        f.tags = {x: rng.choice(['i', 'ix', 'p', 'd', None]) for x in range(1, g.T + g.N) if x != g.err}
        f.tags[g.err] = None
        for l, r in g.rules:
            for m in r:
                if m in f.midof:
                    f.tags[m] = f.tags[l]       # a mid-rule action's value has the type of its rule's left-hand side
        for i, (l, r) in enumerate(g.rules):
            # the default action copies the whole value: keep the types alike
            if i in f.silent and (not r or f.tags.get(l) != f.tags.get(r[0]) or r[0] == g.err):
                f.silent = f.silent - {i}
    special(rng, g, f)
    opts = []
    if rng.random() < 0.15 and not t.conf:
        opts.append('-B')
        f.btpop = True
    st = rng.getstate()
    sp = by.Spell(g, rng, lit=lit, num=0)
    rng.setstate(st)
    assign_dest(random.Random(rng.random()), g, f, sp.lits)
    rng.setstate(st)
    files = build(c, g, f, rng, 'byacc', opts, lit=lit)
    if files is None:
        return
    I = gen.Inputs(g, a, rng)
    sim = ysim.YSim(a, t, f)
    inputs = usable(sim, I.many(t, 10, 30, 10, 100, 15, 50) + gen.stress_inputs(I, t, rng, 80))
    lines = by.drive(c, './p', inputs, 'byacc ' + ' '.join(opts), files)
    if lines is None:
        return
    c.count('grammars')
    compare(c, sim, inputs, lines, files, 'byacc ' + ' '.join(opts), 'lifecycle', g, f, lambda m: any(e[0] == 'd' for e in m))
