"""lemon grammars with values, destructors, error symbol, fallback, wildcard and classes: text writer and run model."""
import re
from . import le
from .lr import Grammar, LALR, lemon_table, lemon_rule_prec, bits


def err_nt(g):
    """The same grammar with the error symbol as a nonterminal without rules, as lemon sees it."""
    E = g.err
    T, N = g.T - 1, g.N + 1
    m = {}
    for t in range(g.T):
        if t != E:
            m[t] = t if t < E else t - 1
    for n in range(g.T, g.T + g.N):
        m[n] = n - 1
    m[E] = T + N - 1
    return Grammar(T, N, [(m[l], tuple(m[x] for x in r)) for l, r in g.rules], m[g.start],
                   [m[p] if p is not None and p != E else None for p in g.rprec],
                   {m[t]: v for t, v in g.tprec.items() if t != E}, m[E],
                   [x for i, x in enumerate(g.terms) if i != E], list(g.nts) + ['error'])


class Full:
    """What the generated parser declares and logs."""

    def __init__(self):
        self.ttype = 'i'          # token type: i, s (struct), p (pointer)
        self.dflt = 'i'           # %default_type key or None (nonterminals then have the token type)
        self.types = {}           # nonterminal -> key
        self.tdest = False
        self.dest = set()         # nonterminals with their own %destructor
        self.shared = set()       # those of them whose %destructor text is the same
        self.style = 0            # how the labels are spelled
        self.ddest = False
        self.silent = frozenset()
        self.labels = {}          # rule -> set of labelled positions
        self.lmode = {}           # rule -> none / own / same / over
        self.first = set()        # rules whose code sets the left-hand side before reading the labels
        self.at = {}              # rule -> positions whose @label is logged
        self.arg = False
        self.ctx = False
        self.fallback = {}        # terminal -> terminal
        self.wild = None
        self.classes = {}         # pseudo terminal -> (name, None or (name of the extended class, further members), members)
        self.stack = None         # %stack_size
        self.peak = False
        self.noerr = False        # YYNOERRORRECOVERY
        self.prefix = 'TK_'
        self.errdest = False

    def ntype(self, n):
        return self.types.get(n, self.dflt if self.dflt else 'T')

    def has_dest(self, g, x):
        if x == g.err:
            return self.errdest
        if x < g.T:
            return self.tdest
        return self.ddest or x in self.dest

    def dlabel(self, g, x):
        if x < g.T:
            return 'T' if self.tdest else None
        if x in self.dest:
            return 'S' if x in self.shared else 'N%d' % x
        if x == g.err:
            return None
        return 'D' if self.ddest else None

    def describe(self):
        return 'labels %s lhs %s fallback %s wildcard %s classes %s types %s/%s/%s dest %s/%s/%s stack %s' % (
            self.labels, self.lmode, self.fallback, self.wild, self.classes, self.ttype, self.dflt, self.types,
            self.tdest, self.dest, self.ddest, self.stack)


STYLE = [(None, 'R'), (['A_1', 'A_', 'A', 'A1', 'A_1_', 'AA', 'A_A', 'AA_'], 'A_2'), (['x', 'xx', 'x_x', 'x1', 'x_1', 'x1_', 'x__x', 'x___'], 'x_'),
         (['rhs', 'lhs1', 'lhs_', 'r', 'l', 'Lhs', 'hs', 'rhs_1'], 'lhs')]


def label(f, j):
    s = STYLE[f.style][0]
    return s[j] if s and j < len(s) else le.label(j)


GET = {'i': '%s', 'd': '(int)%s', 's': '%s.v', 'p': '(%s ? %s->v : 0)'}
CT = {'i': 'int', 'd': 'double', 's': 'struct vf_s', 'p': 'struct vf_s*'}


def get(key, x):
    return GET[key].replace('%s', x)


def setv(key, x, v):
    if key == 's':
        return 'memset(&%s, 0, sizeof(struct vf_s)); %s.v = %s;' % (x, x, v)
    if key == 'p':
        return '%s = vf_box(%s);' % (x, v)
    return '%s = %s;' % (x, v)


def key_of(f, g, x):
    if x < g.T:
        return f.ttype
    k = f.ntype(x)
    return f.ttype if k == 'T' else k


def randomize(rng, g, f, dest=True, big=False):
    """Random types, labels, destructors; consistent with the rules of the language."""
    f.ttype = rng.choice('iiss' if big else 'iisp')     # boxed values (p) are a ring of 1024
    f.dflt = rng.choice(['i', 'i', 'd', 's', None])
    for n in range(g.T, g.T + g.N):
        if n != g.err and rng.random() < 0.4:
            f.types[n] = rng.choice('idss' if big else 'idsp')
    if dest:
        f.tdest = rng.random() < 0.7
        f.ddest = rng.random() < 0.3
        for n in range(g.T, g.T + g.N):
            if n != g.err and rng.random() < 0.45:
                f.dest.add(n)
        if rng.random() < 0.5:
            f.shared = {n for n in sorted(f.dest) if rng.random() < 0.7}
    f.style = rng.choice([0, 0, 1, 2, 3])
    sil = set()
    p = rng.choice([0, 0.1, 0.3])
    undef = set()           # nonterminals that some rule leaves without a value: not labelled
    none = set()
    for i, (l, r) in enumerate(g.rules):
        if not f.has_dest(g, l) and rng.random() < p:
            sil.add(i)
            undef.add(l)
        elif not f.has_dest(g, l) and rng.random() < 0.15:
            none.add(i)
            undef.add(l)
    for i, (l, r) in enumerate(g.rules):
        if i in sil:
            continue
        lab = {j for j, x in enumerate(r) if x != g.err and x not in undef and rng.random() < rng.choice([0.5, 0.85, 1])}
        f.labels[i] = lab
        modes = ['own', 'own', 'over']
        if 0 in lab and r and g.start != l:
            if key_of(f, g, l) == key_of(f, g, r[0]):
                modes.append('same')
                modes.append('same')
        m = 'none' if i in none else rng.choice(modes)
        if m == 'over' and 0 not in lab:
            m = 'own'
        f.lmode[i] = m
        if m == 'own' and rng.random() < 0.5:
            f.first.add(i)
        f.at[i] = {j for j in lab if r[j] < g.T and rng.random() < 0.4}
    f.silent = frozenset(sil)
    f.arg = rng.random() < 0.35
    f.ctx = rng.random() < 0.35


def action(g, f, i, sp):
    """(lhs label or None, {position: label}, code or None)"""
    if i in f.silent:
        return None, {}, None
    l, r = g.rules[i]
    lab = {j: label(f, j) for j in f.labels[i]}
    m = f.lmode[i]
    L = None if m == 'none' else lab[0] if m == 'same' else STYLE[f.style][1]
    k = key_of(f, g, l)
    s = 'vf_rule(%d); ' % i
    if m == 'own' and i in f.first:
        s = setv(k, L, 'vf_peek()') + ' ' + s
    for j in sorted(lab):
        s += 'vf_val(%s); ' % get(key_of(f, g, r[j]), lab[j])
        if j in f.at.get(i, ()):
            s += 'vf_at(@%s); ' % lab[j]
    if f.arg:
        s += 'vf_val(px->id); '
    if f.ctx:
        s += 'vf_val(pc->id); '
    if m == 'over':
        s += '/*%s-overwrites-%s*/ ' % (L, lab[0])
    if m == 'none' or (m == 'own' and i in f.first):
        s += 'vf_new(); '
    else:
        s += setv(k, L, 'vf_new()') + ' '
    return L, lab, '{ ' + s + '}'


INC = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#ifdef VF_THREADS
#include <pthread.h>
#define VF_TLS __thread
#else
#define VF_TLS
#endif
struct vf_s { char pad[11]; int v; };
struct vf_a { int id; };
struct vf_c { int pad; int id; };
static int vf_gi(int x) { return x; }
static int vf_gd(double x) { return (int)x; }
static int vf_gs(struct vf_s x) { return x.v; }
static int vf_gp(struct vf_s *x) { return x ? x->v : 0; }
#define VF_GET(x) _Generic((x), int: vf_gi, double: vf_gd, struct vf_s: vf_gs, struct vf_s*: vf_gp)(x)
/* one per input: events go to its stream */
struct vf_st { FILE *out; char *buf; size_t len; int node, nev, nbox, pos; struct vf_s boxes[1024]; void *p; struct vf_a arg; struct vf_c ctx; };
static VF_TLS struct vf_st *vf_c;
static int vf_idx(int);
static void vf_ev(const char *fmt, ...)
{
    va_list ap;
    if (++vf_c->nev > 300000) { printf(" !toomany\n"); fflush(stdout); exit(5); }
    va_start(ap, fmt); vfprintf(vf_c->out, fmt, ap); va_end(ap);
}
static struct vf_s *vf_box(int v) { struct vf_s *p = &vf_c->boxes[vf_c->nbox++ & 1023]; p->v = v; return p; }
static int vf_new(void) { return 100001 + vf_c->node++; }
static int vf_peek(void) { return 100001 + vf_c->node; }
static void vf_rule(int r) { vf_ev(" r%d", r); }
static void vf_val(int v) { vf_ev(",%d", v); }
static void vf_at(int c) { vf_ev(",@%d", vf_idx(c)); }
#ifdef VF_ALLOC
/* allocations of the parser stack fail from the vf_left-th on, all (vf_heal < 0) or a few */
static VF_TLS int vf_left = -1, vf_heal = -1;
static int vf_fails(void) { if (vf_left == 0) { if (vf_heal == 0) return 0; if (vf_heal > 0) vf_heal--; vf_ev(" m"); return 1; } if (vf_left > 0) vf_left--; return 0; }
static void *vf_malloc(size_t n) { return vf_fails() ? 0 : malloc(n); }
static void *vf_realloc(void *p, size_t n) { return vf_fails() ? 0 : realloc(p, n); }
#define malloc vf_malloc
#define realloc vf_realloc
#endif
'''

MAIN = r'''
#undef malloc
#undef realloc
static int vf_codes[] = { 0%(codes)s };
static int vf_idx(int code) { int i; for (i = 0; i < (int)(sizeof vf_codes / sizeof vf_codes[0]); i++) if (vf_codes[i] == code) return i; return -1; }
struct vf_in { int n, *t; };
static void vf_begin(struct vf_st *s)
{
    memset(s, 0, sizeof *s);
    s->out = open_memstream(&s->buf, &s->len);
    s->ctx.id = 777;
    vf_c = s;
    %(begin)s
    s->p = ParseAlloc(malloc%(ctx)s);
}
static void vf_step(struct vf_st *s, struct vf_in *in)
{
    /* -1 stands for an end of input inside the sequence (the parser is used again) */
    int x = in->t[s->pos];
    %(tt)s tok;
    vf_c = s;
    memset(&tok, 0, sizeof tok);
    if (x >= 0) { %(settok)s }
    s->arg.id = 1000 + s->pos;
    vf_ev(" t");
    s->pos++;
    Parse(s->p, x < 0 ? 0 : vf_codes[x], tok%(arg)s);
}
static void vf_finish(struct vf_st *s)
{
    vf_c = s;
    vf_ev(" f");
    { void *p = s->p; (void)p; %(peak)s }
    ParseFree(s->p, free);
    fclose(s->out);
}
static struct vf_in *vf_ins;
static int vf_nin;
#ifdef VF_THREADS
#define VF_NT 4
static struct vf_st *vf_ts[VF_NT];
static void *vf_thread(void *arg)
{
    int k = *(int *)arg, i;
    for (i = 0; i < vf_nin; i++) {
        struct vf_st *s = &vf_ts[k][i];
        struct vf_in *in = &vf_ins[(i + k * 7) %% vf_nin];
        vf_begin(s);
        while (s->pos < in->n) vf_step(s, in);
        vf_finish(s);
    }
    return 0;
}
#endif
int main(int argc, char **argv)
{
    int i, n, j, cap = 0;
    while (scanf("%%d", &n) == 1) {
        if (vf_nin == cap) vf_ins = realloc(vf_ins, sizeof *vf_ins * (cap = cap * 2 + 16));
        vf_ins[vf_nin].n = n;
        vf_ins[vf_nin].t = malloc(sizeof(int) * (n + 1));
        for (i = 0; i < n; i++) if (scanf("%%d", &vf_ins[vf_nin].t[i]) != 1) return 9;
        vf_nin++;
    }
    %(trace0)s
#ifdef VF_THREADS
    {
        pthread_t th[VF_NT];
        int id[VF_NT];
        for (i = 0; i < VF_NT; i++) { id[i] = i; vf_ts[i] = malloc(sizeof(struct vf_st) * (vf_nin + 1)); }
        for (i = 0; i < VF_NT; i++) pthread_create(&th[i], 0, vf_thread, &id[i]);
        for (i = 0; i < VF_NT; i++) pthread_join(th[i], 0);
        for (i = 0; i < VF_NT; i++) for (j = 0; j < vf_nin; j++) printf("%%s =\n", vf_ts[i][j].buf);
        return 0;
    }
#endif
    if (argc > 1) {
        /* interleaved: all parsers alive together, stepped in a pseudo-random order */
        struct vf_st *s = malloc(sizeof *s * (vf_nin + 1));
        unsigned x = atoi(argv[1]);
        int left = vf_nin;
        char *fin = calloc(vf_nin + 1, 1);
        for (i = 0; i < vf_nin; i++) vf_begin(&s[i]);
        while (left) {
            x = x * 1103515245u + 12345u;
            i = (x >> 8) %% vf_nin;
            while (fin[i]) i = (i + 1) %% vf_nin;
            if (s[i].pos < vf_ins[i].n) vf_step(&s[i], &vf_ins[i]);
            else { vf_finish(&s[i]); fin[i] = 1; left--; }
        }
        for (i = 0; i < vf_nin; i++) printf("%%s =\n", s[i].buf);
        return 0;
    }
    for (j = 0; j < vf_nin; j++) {
        static struct vf_st s;
#ifdef VF_ALLOC
        vf_left = VF_ALLOC + j %% 5;
        vf_heal = VF_HEAL ? 1 + j / 5 %% 2 : -1;
#endif
        vf_begin(&s);
        while (s.pos < vf_ins[j].n) vf_step(&s, &vf_ins[j]);
        vf_finish(&s);
        %(esc)s
        printf("%%s =\n", s.buf);
        fflush(stdout);
        free(s.buf);
    }
    %(done)s
    return 0;
}
'''


def emit(g, sp, rng, f, extra=(), inc='', order=None, trace0='', name=None, peakcode=None, begin='', esc='', done=''):
    P = name or 'Parse'
    tt = CT[f.ttype]
    out = ['%%token_prefix %s' % f.prefix] if f.prefix else []
    if name:
        out.append('%%name %s' % name)
    out.append('%%token_type {%s}' % tt)
    if f.dflt:
        out.append('%%default_type {%s}' % CT[f.dflt])
    out.append('%include {' + inc + ('#define YYTRACKMAXSTACKDEPTH 1\n' if f.peak else '') + ('#define YYNOERRORRECOVERY 1\n' if f.noerr else '') + INC + '}')
    if f.arg:
        out.append('%extra_argument {struct vf_a *px}')
    if f.ctx:
        out.append('%extra_context {struct vf_c *pc}')
    x = ('vf_val(px->id); ' if f.arg else '') + ('vf_val(pc->id); ' if f.ctx else '')
    out.append('%%syntax_error { vf_ev(" e%%d:%%d", vf_idx(yymajor), %s); %s}' % (get(f.ttype, 'TOKEN'), x))
    out.append('%%parse_failure { vf_ev(" F"); %s}' % x)
    out.append('%%parse_accept { vf_ev(" A"); %s}' % x)
    out.append('%%stack_overflow { vf_ev(" O"); %s}' % x)
    dv = lambda lab, k: '{ vf_ev(" d%s:%%d", %s); %s}' % (lab, get(k, '$$'), x)
    if f.stack is not None:
        out.append('%%stack_size %d' % f.stack)
    order = order or list(range(1, g.T))
    tk = [t for t in order if t not in f.classes]
    k = 0
    while k < len(tk):
        n = rng.randint(1, 4)
        out.append('%%token %s.' % ' '.join(sp.tok[t] for t in tk[k:k + n]))
        k += n
    tail = []
    if f.tdest:
        tail.append('%token_destructor ' + dv('T', f.ttype))
    if f.ddest:
        tail.append('%default_destructor { vf_ev(" dD:%d", VF_GET($$)); ' + x + '}')
    for n in range(g.T, g.T + g.N):
        if n == g.err:
            continue
        if f.types.get(n):
            tail.append('%%type %s {%s}' % (sp.nt[n], CT[f.types[n]]))
        if n in f.dest:
            tail.append('%%destructor %s %s' % (sp.nt[n], dv('N%d' % n, key_of(f, g, n)) if n not in f.shared else
                                                '{ vf_ev(" dS:%d", VF_GET($$)); ' + x + '}'))
    for t, fb in f.fallback.items():
        tail.append('%%fallback %s %s.' % (sp.tok[fb], sp.tok[t]))
    if f.wild is not None:
        tail.append('%%wildcard %s.' % sp.tok[f.wild])
    rng.shuffle(tail)
    out += tail
    for c, (nm, mem) in f.classes.items():
        if isinstance(nm, str):
            out.append('%%token_class %s %s%s.' % (nm, rng.choice(['', '', '', '|']), rng.choice([' |', ' ', '|', '/', ' /']).join(sp.tok[m] for m in mem)))
    gp = Grammar(g.T, g.N, g.rules, g.start, g.rprec, {t: v for t, v in g.tprec.items() if t not in f.classes}, g.err, g.terms, g.nts)
    out += le.prec_lines(gp, sp)
    out += list(extra)
    if g.rules[0][0] != g.start or rng.random() < 0.2:
        out.append('%%start_symbol %s' % sp.nt[g.start])

    def sym(x):
        if x in f.classes:
            nm, mem = f.classes[x]
            if isinstance(nm, tuple):   # a class extended in one rule
                return nm[0] + ''.join(rng.choice(['|', ' |', '/']) + sp.tok[m] for m in nm[1])
            return nm or rng.choice(['|', ' |', '/']).join(sp.tok[m] for m in mem)
        return sp.sym(x)
    for i, (l, r) in enumerate(g.rules):
        L, lab, code = action(g, f, i, sp)
        s = '%s%s ::= %s.' % (sp.nt[l], '(%s)' % L if L else '', ' '.join(
            sym(x) + ('(%s)' % lab[j] if j in lab else '') for j, x in enumerate(r)))
        if g.rprec[i] is not None:
            s += ' [%s]' % sp.tok[g.rprec[i]]
        if code:
            s += ' ' + code
        out.append(s)
    codes = ''.join(', ' + (f.prefix + sp.tok[t] if t not in f.classes else '-1') for t in range(1, g.T))
    st = {'i': 'tok = s->pos + 1;', 's': 'tok.v = s->pos + 1;', 'p': 'tok = vf_box(s->pos + 1);'}[f.ttype]
    out.append('%code {' + (MAIN % dict(codes=codes, tt=tt, settok='%s' % st, arg=', &s->arg' if f.arg else '',
                                      ctx=', &s->ctx' if f.ctx else '', peak=peakcode or ('vf_ev(" p%d", ParseStackPeak(p));' if f.peak else ''),
                                      trace0=trace0, begin=begin, esc=esc, done=done)).replace('Parse', P) + '}')
    text = '\n'.join(out) + '\n'
    # the names that the two declarations end with, and blanks behind them
    for nm, on in (('px', f.arg), ('pc', f.ctx)):
        if on:
            new = rng.choice([nm, nm, 'the_' + nm, '_' + nm, nm + '_', nm[0].upper() + '9_' + nm[1]])
            text = re.sub(r'\b%s\b' % nm, new, text)
            text = text.replace('*%s}' % new, rng.choice(['*%s}', '* %s}', '*%s }', ' *\t%s \t}']) % new, 1)
    return text


class View:
    """The automaton with classes expanded to their members."""

    def __init__(self, a, f):
        self.g = a.g
        self.nstates = a.nstates
        self.augmented = a.augmented
        self.accept_state = getattr(a, 'accept_state', None)
        self.trans, self.la, self.clash = [], [], False
        for s in range(a.nstates):
            tr = {}
            for x, q in a.trans[s].items():
                for m in (f.classes[x][1] if x in f.classes else (x,)):
                    if m in tr:
                        self.clash = True
                    tr[m] = q
            self.trans.append(tr)
            d = {}
            for ri, b in a.la[s].items():
                n = 0
                for x in bits(b):
                    for m in (f.classes[x][1] if x in f.classes else (x,)):
                        n |= 1 << m
                d[ri] = n
            self.la.append(d)
        self.kernels = getattr(a, 'kernels', None)
        self.reds = getattr(a, 'reds', None)


class Loop(Exception):
    pass


class LSim:
    """One parser; feed() returns the events of one call."""

    def __init__(self, a, t, f, compress=True, order=None):
        self.a, self.t, self.g, self.f = a, t, a.g, f
        g = a.g
        order = order or list(range(1, g.T))
        pos = {0: 0}
        for k, x in enumerate(order):
            pos[x] = k + 1
        self.dflt = []
        for s in range(a.nstates):
            best, nb = None, 0
            acts = t.action[s]
            seen = {}
            wild = False
            for x in sorted(acts, key=lambda x: pos.get(x, 10 ** 6)):
                ac = acts[x]
                if ac[0] == 'r' and g.rules[ac[1]][0] != g.start:
                    seen[ac[1]] = seen.get(ac[1], 0) + 1
            for i, n in seen.items():
                if n > nb:
                    best, nb = i, n
            if f.wild is not None and f.wild in acts:
                wild = acts[f.wild] != ('r', best)
            if best is not None and all(self.acts_otherwise(acts, x, best) for x in acts if acts[x] == ('r', best)):
                best = None
            self.dflt.append(best if compress and not wild else None)

    def acts_otherwise(self, acts, x, best):
        u = self.f.fallback.get(x)
        return u is not None and u in acts and acts[u] != ('r', best)

    def reset(self):
        self.st = [(0, None, None)]
        self.errcnt = -1
        self.node = 0
        self.peak = 0
        self.steps = 0
        self.last = 0

    def tail(self):
        return (',%d' % self.last if self.f.arg else '') + (',777' if self.f.ctx else '')

    def destroy(self, ev, x, v):
        d = self.f.dlabel(self.g, x)
        if d:
            ev.append('d%s:%s%s' % (d, '?' if v is None else v, self.tail()))

    def pop(self, ev):
        s, x, v = self.st.pop()
        self.destroy(ev, x, v)

    def clear(self, ev):
        while len(self.st) > 1:
            self.pop(ev)

    def lookup(self, s, x):
        f = self.f
        act = self.t.action[s]
        y = x
        while True:
            if y in act:
                return act[y]
            if y in f.fallback:
                y = f.fallback[y]
                continue
            if f.wild is not None and y > 0 and f.wild in act:
                return act[f.wild]
            d = self.dflt[s]
            return None if d is None else ('r', d)

    def overflow(self, ev):
        self.clear(ev)
        ev.append('O' + self.tail())

    def nomem(self, ev):
        """Did the real parser fail to allocate here?  (Taken from its log.)"""
        if self.seen is not None and len(ev) + self.base < len(self.seen) and self.seen[len(ev) + self.base] == 'm':
            ev.append('m')
            return True
        return False

    def shift(self, ev, q, x, v):
        n = self.f.stack
        if n is None:
            n = 100
        self.peak = max(self.peak, len(self.st))
        if n > 0 and len(self.st) > n - 1 or n <= 0 and self.nomem(ev):
            self.overflow(ev)
            return
        self.st.append((q, x, v))

    def reduce(self, ev, i):
        f, g = self.f, self.g
        l, r = g.rules[i]
        k = len(r)
        ent = self.st[len(self.st) - k:] if k else []
        lab = f.labels.get(i, ()) if i not in f.silent else ()
        new = None
        if k and 0 not in lab and f.has_dest(g, ent[0][1]):
            self.destroy(ev, ent[0][1], ent[0][2])
        if i not in f.silent:
            s = 'r%d' % i
            for j in sorted(lab):
                v = ent[j][2]
                s += ',%s' % ('?' if v is None else v)
                if j in f.at.get(i, ()):
                    s += ',@%d' % ent[j][1]
            ev.append(s + self.tail())
            if f.lmode[i] != 'none':
                new = 100001 + self.node
            self.node += 1
        for j in range(1, k):
            if j not in lab:
                self.destroy(ev, ent[j][1], ent[j][2])
        if k:
            del self.st[-k:]
        return l, new

    def feed(self, x, v, argid, limit=20000):
        """x: terminal, 0 at the end."""
        f, g, a = self.f, self.g, self.a
        ev = ['t']
        self.last = argid
        hit = False
        n = f.stack if f.stack is not None else 100
        while True:
            self.steps += 1
            if self.steps > limit:
                raise Loop()
            ac = self.lookup(self.st[-1][0], x)
            if ac is not None and ac[0] == 'r':
                i = ac[1]
                if not g.rules[i][1]:
                    self.peak = max(self.peak, len(self.st))
                    if n > 0 and len(self.st) >= n or n <= 0 and self.nomem(ev):
                        self.overflow(ev)
                        return ev
                l, new = self.reduce(ev, i)
                if l == g.start and len(self.st) == 1:
                    ev.append('A' + self.tail())
                    self.errcnt = -1
                    return ev
                self.st.append((a.trans[self.st[-1][0]][l], l, new))
                continue
            if ac is not None and ac[0] == 's':
                self.shift(ev, ac[1], x, v)
                self.errcnt -= 1
                return ev
            # error
            e = 'e%d:%s%s' % (x, v, self.tail())
            if f.noerr:
                ev.append(e)
                self.destroy(ev, x, v) if x else self.destroy0(ev, v)
                return ev
            if g.err is not None:
                if self.errcnt < 0:
                    ev.append(e)
                top = self.st[-1][1]
                done = False
                if x and (top == g.err or hit):
                    self.destroy(ev, x, v)
                    done = True
                else:
                    while len(self.st) > 1:
                        if g.err in a.trans[self.st[-1][0]]:
                            break
                        self.pop(ev)
                    if len(self.st) <= 1 or x == 0:
                        self.destroy0(ev, v) if x == 0 else self.destroy(ev, x, v)
                        self.clear(ev)
                        ev.append('F' + self.tail())
                        self.errcnt = -1
                        return ev
                    self.shift(ev, a.trans[self.st[-1][0]][g.err], g.err, None)
                self.errcnt = 3
                hit = True
                if done:
                    return ev
                continue
            if self.errcnt <= 0:
                ev.append(e)
            self.errcnt = 3
            self.destroy0(ev, v) if x == 0 else self.destroy(ev, x, v)
            if x == 0:
                self.clear(ev)
                ev.append('F' + self.tail())
                self.errcnt = -1
            return ev

    def destroy0(self, ev, v):
        """The end marker: its code 0 selects no destructor."""

    def run(self, toks, seen=None):
        self.reset()
        self.seen = seen
        ev = []
        if seen and seen[0] == 'm':
            ev.append('m')
        for i, x in enumerate(toks):
            self.base = len(ev)
            ev += self.feed(max(x, 0), i + 1 if x >= 0 else 0, 1000 + i)
        ev.append('f')
        if self.f.peak:
            ev.append('p%d' % self.peak)
        while len(self.st) > 1:
            self.pop(ev)
        ev.append('=')
        return ev


SEP = re.compile(r'[,:]')


def same(model, seen):
    """Index of the first difference or None; ? in the model matches anything."""
    for k, m in enumerate(model):
        if k >= len(seen):
            return k
        s = seen[k]
        if m != s:
            if '?' not in m and '?' not in s:
                return k
            p, q = SEP.split(m), SEP.split(s)
            if len(p) != len(q) or any(x != y and x != '?' and y != '?' for x, y in zip(p, q)):
                return k
    return None if len(model) == len(seen) else len(model)
