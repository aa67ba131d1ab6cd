"""B04: semantic values and locations in actions."""
import random
from .. import env, gen, by, ysim
from ..lr import LALR, byacc_table
from .b05 import build, compare, usable

TECH = 'runtime value monitor: actions of generated parsers log every operand and location, compared with a model of the value stack'
NOTE = ('Held on the executions observed (under ASan/UBSan): every $n, $-n, $<tag>n, @n and @$ an action reads equals the value the model has for that '
        'stack entry; inherited attributes are compared with an evaluator of the attribute grammar.')
TOOLS = ['byacc-san', 'nbyacc-san']
RULE = ('one evaluation = one token sequence parsed by a generated parser, all operands and locations of all actions compared with the model; '
        'distinct nontrivial = distinct (grammar, declarations, input) with at least one action that read a value')
ASSUMES = ['the reference automaton and the value model (vf/lr.py, vf/ysim.py); tokens carry their position as value and location']


def plan(ctx):
    k = 6 if ctx.thorough else 1
    out = [['val', i] for i in range(220 * k)] + [['inh', i] for i in range(200 * k)]
    random.Random(ctx.seed).shuffle(out)
    return [['start', 0]] + out


START = r'''
%locations
%{
#include <stdio.h>
#define YYSTYPE int
int yylex(void);
void yyerror(void *l, const char *s);
%}
%%
s : e 'a' ;
e : { if (@$.first_line > 5) putchar('x'); putchar('.'); } ;
%%
static int k;
int yylex(void) { yylloc.first_line = yylloc.last_line = yylloc.first_column = yylloc.last_column = 1; return k++ ? 0 : 'a'; }
void yyerror(void *l, const char *s) { }
int main(void) { return yyparse(); }
'''


def case(ctx, c):
    rng = c.rng
    if c.spec[0] == 'start':
        c.write('g.y', START)
        r = by.run_byacc(c, 'byacc', [])
        rc, out, err = env.clang_msan(c.dir, 'y.tab.c', 'p')
        if rc:
            return c.inconclusive('clang -fsanitize=memory: ' + err[:300])
        r = env.run(['./p'], cwd=c.dir)
        c.evals += 1
        if r.bad() or r.rc:
            c.violation('empty-rule-at-start', 'the location of an empty rule at the start of the input is uninitialised memory: %s' % r.etext[:800], {'g.y': START})
        return
    if c.spec[0] == 'inh':
        return inherited(ctx, c)
    r = rng.random()
    g = gen.error_grammar(rng) if r < 0.25 else gen.conflict_free(rng, rng.choice(['tiny', 'small', 'null', 'unit', 'medium', 'gadget', 'mix', 'expr']))
    g.tprec = {} if r < 0.25 else g.tprec
    variant = 'byacc' if rng.random() < 0.65 else 'nbyacc'
    f = by.Full()
    g0 = g
    if rng.random() < 0.7:
        g, f.mid, f.midof = by.add_midrules(rng, g, rng.randint(1, 5))
    a = LALR(g)
    t = byacc_table(a)
    if f.mid and t.conf:
        # rules of mid-rule actions may conflict: keep to the grammar without them
        g, f.mid, f.midof = g0, {}, {}
        a = LALR(g)
        t = byacc_table(a)
    f.pure = rng.random() < 0.3
    f.param = rng.random() < 0.2
    f.loc = variant == 'byacc' and rng.random() < 0.5
    f.initial = variant == 'byacc' and rng.random() < 0.2 and f.loc
    if rng.random() < 0.6:
        f.tags = {x: rng.choice(['i', 'ix', 'p', 'd', 'd', None]) for x in range(1, g.T + g.N) if x != g.err and x not in f.midof}
        for l, rr in g.rules:
            for x in rr:
                if x in f.midof:
                    f.tags[x] = f.tags.get(l) if variant == 'byacc' else None
        if g.err is not None:
            f.tags[g.err] = None
    mids = {f.midof[x]: l for l, rr in g.rules for x in rr if x in f.midof}
    sil = set()
    for j, (l, rr) in enumerate(g.rules):
        if l in f.midof or rng.random() > 0.2:
            continue
        if rr and rr[0] != g.err and (f.tags is None or f.tags.get(l) == f.tags.get(rr[0])) and rr[-1] not in f.midof:
            sil.add(j)
    f.silent = frozenset(sil)
    if f.tags is None or all(v in ('i', 'ix', None) for v in f.tags.values()):
        d = by.left_depth(g)
        for j, (l, rr) in enumerate(g.rules):
            n = d.get(mids.get(j, l))
            if n and rng.random() < 0.5 and g.err is None:
                f.below[j] = [-x for x in rng.sample(range(min(n, 4)), rng.randint(1, min(n, 4)))]
    if f.tags is not None:
        f.cast = frozenset(j for j in range(len(g.rules)) if rng.random() < 0.3)
    for j in range(len(g.rules)):
        if rng.random() < 0.25:
            x = by.junk(rng)
            if x:
                f.junk[j] = x
    opts = [o for o in ('-t', '-l', '-r') if rng.random() < 0.1 and o != '-r']
    if variant == 'byacc' and rng.random() < 0.12 and not t.conf and not f.initial:
        opts.append('-B')
        f.btpop = True
    files = build(c, g, f, rng, variant, opts)
    if files is None:
        return
    I = gen.Inputs(g, a, rng)
    sim = ysim.YSim(a, t, f)
    inputs = usable(sim, I.many(t, 20, 12, 4, 150, 20, 60))
    lines = by.drive(c, './p', inputs, variant + ' ' + ' '.join(opts), files)
    if lines is None:
        return
    for k, v in (('grammars', 1), ('with locations', f.loc), ('with typed values', f.tags is not None), ('with mid-rule actions', bool(f.mid)),
                 ('with $0, $-1, ...', bool(f.below)), ('with strings and comments in actions', bool(f.junk)), ('pure', f.pure)):
        c.count(k, int(v))
    compare(c, sim, inputs, lines, files, variant + ' ' + ' '.join(opts), 'values', g, f, lambda m: any(e[0] == 'r' and ',' in e for e in m))


# ---------------------------------------------------------------- inherited attributes
class Attr:
    """A random L-attributed grammar, every alternative of which starts with its own token or is left recursive."""

    def __init__(self, rng):
        self.rng = rng
        self.n = rng.randint(2, 5)
        self.plain = rng.random() < 0.3         # no tags at all
        self.tags = 'i' if self.plain else 'id'
        self.nt = 0
        self.par = [[] if i == 0 else [(rng.choice(self.tags), 'a%d' % j) for j in range(rng.choice([0, 1, 1, 2, 2, 3]))] for i in range(self.n)]
        self.tag = [rng.choice(self.tags) for _ in range(self.n)]
        self.ttag = {}
        self.lead = set()
        self.alts = []
        self.same = rng.random() < 0.3
        if self.same:
            self.par = [[(t, 'a%d' % j) for j, (t, _) in enumerate(p)] for p in self.par]
        for i in range(self.n):
            al = []
            for k in range(rng.randint(1, 3)):
                al.append(self.alt(i, k == 0))
            if rng.random() < 0.4:
                al.append(self.leftrec(i))
            self.alts.append(al)

    def tok(self):
        self.nt += 1
        t = 'T%d' % self.nt
        self.ttag[t] = self.rng.choice(self.tags)
        return ('t', t)

    def arg(self, i, items, tag):
        """(text, function of (values, named))"""
        rng = self.rng
        vals = [(j, x) for j, x in enumerate(items)]
        r = rng.random()
        cand = []
        for j, x in vals:
            tg = self.ttag[x[1]] if x[0] == 't' else self.tag[x[1]] if x[0] == 'n' else 'i'
            if x[0] != 'm':
                cand.append(('$%d' % (j + 1), (lambda v, a, j=j: v[j]), tg))
            if x[0] == 'm' and self.midtag(i) == 'i':
                cand.append(('$<i>%d' % (j + 1), (lambda v, a, j=j: v[j]), 'i'))
        for tg, nm in self.par[i]:
            cand.append(('$' + nm, (lambda v, a, nm=nm: a[nm]), tg))
            cand.append(('$<%s>%s' % (tg, nm), (lambda v, a, nm=nm: a[nm]), tg))
            cand.append(('$<%s>%d' % (tg, self.below(i, nm)), (lambda v, a, nm=nm: a[nm]), tg))
        good = [x for x in cand if x[2] == tag] or cand
        if not cand or r < 0.08:
            k = rng.randint(1, 99)
            return (str(k), lambda v, a, k=k: k)
        x = rng.choice(good if r < 0.8 else cand)
        if rng.random() < 0.25:
            k = rng.randint(1, 9)
            return ('%s + %d' % (x[0], k), lambda v, a, x=x, k=k: x[1](v, a) + k)
        return (x[0], x[1])

    def midtag(self, i):
        return self.tag[i]

    def body(self, i, items, ln, term):
        rng = self.rng
        for _ in range(ln):
            r = rng.random()
            if r < 0.35 or term:
                items.append(self.tok())
            elif r < 0.5 and items[-1][0] != 'm':
                items.append(('m', self.show(i, items)))
            else:
                j = rng.randint(1, self.n - 1) if self.n > 1 else 0
                if j <= i and rng.random() < 0.6:
                    j = min(self.n - 1, i + 1)
                if rng.random() < 0.3 and self.par[j]:
                    # values next to each other on the stack, mostly its top ones, in order: these need no copies
                    L = [('p', q) for q in range(len(self.par[i]))] + [('v', q) for q in range(len(items))]
                    m = min(len(L), rng.randint(1, len(self.par[j])) if rng.random() < 0.4 else len(self.par[j]))
                    e = len(L) - (0 if rng.random() < 0.75 else rng.randint(0, 2))
                    tl = L[max(0, e - m):e]
                    if len(tl) == m and not any(k == 'v' and items[q][0] == 'm' for k, q in tl):
                        ar = []
                        for (k, q), (tg, _) in zip(tl, self.par[j]):
                            if k == 'p':
                                pt, nm = self.par[i][q]
                                ar.append((rng.choice(['$' + nm, '$<%s>%d' % (pt, self.below(i, nm))]), lambda v, a, nm=nm: a[nm]))
                                continue
                            if items[q][0] == 't' and items.count(items[q]) == 1:
                                self.ttag[items[q][1]] = tg
                            ar.append(('$%d' % (q + 1), lambda v, a, q=q: v[q]))
                        items.append(('n', j, ar + [self.arg(i, items, tg) for tg, _ in self.par[j][m:]]))
                        continue
                items.append(('n', j, [self.arg(i, items, tg) for tg, _ in self.par[j]]))
        if items[-1][0] != 't':
            items.append(self.tok())        # keeps left recursion unambiguous
        return items

    def show(self, i, items):
        names = [n for n in self.par[i] if self.rng.random() < 0.7]
        return (len(items), names)

    def alt(self, i, term):
        rng = self.rng
        items = [self.tok()]
        free = [j for j in range(i + 1, self.n) if j not in self.lead and self.par[j]]
        if free and not term and rng.random() < 0.35:
            # starts with a nonterminal (each does so once, or markers of two rules would compete)
            j = rng.choice(free)
            self.lead.add(j)
            items = [('n', j, [self.arg(i, [], tg) for tg, _ in self.par[j]])]
        items = self.body(i, items, rng.randint(0, 4), term)
        return (items, self.show(i, items))

    def leftrec(self, i):
        m = self.rng.random()
        if i == 0 or not self.par[i]:
            first = ('n', i, [])
        elif m < 0.5:
            first = ('n', i, None)      # inherits the parameters themselves
        else:
            first = ('n', i, [('$' + nm, lambda v, a, nm=nm: a[nm]) for tg, nm in self.par[i]])
        items = self.body(i, [first, self.tok()], self.rng.randint(0, 3), False)
        return (items, self.show(i, items))

    def ref(self, i, items, j):
        x = items[j]
        tg = self.ttag[x[1]] if x[0] == 't' else self.tag[x[1]] if x[0] == 'n' else self.midtag(i)
        if x[0] == 'm' and not self.plain:
            return '(int)$<%s>%d' % (tg, j + 1)
        return '(int)$%d' % (j + 1)

    def action(self, i, k, show, items, mid):
        n, names = show
        s = 'vf_ev(" %s%d.%d");' % ('m' if mid else 'r', i, k)
        for j in range(n):
            s += ' vf_val(%s);' % self.ref(i, items, j)
        for tg, nm in names:
            s += ' vf_val((int)$%s);' % self.rng.choice([nm, '<%s>%s' % (tg, nm), '<%s>%d' % (tg, self.below(i, nm))])
        s += ' $<%s>$ = vf_new();' % self.tag[i] if mid else ' $$ = vf_new();'
        if self.plain:
            s = s.replace('$<i>', '$')
        return '{ ' + s + ' }'

    def below(self, i, nm):
        """The parameters are the stack entries below the right-hand side."""
        return [n for _, n in self.par[i]].index(nm) - len(self.par[i]) + 1

    def text(self):
        o = ['%{\n#include <stdio.h>\n#include <stdlib.h>\n#include <stdarg.h>\n#include <string.h>\nstatic void vf_ev(const char *f, ...);\nstatic void vf_val(int v);\nstatic int vf_new(void);\nint yylex(void);\nvoid yyerror(const char *s);\n%}',
             '%union { int i; double d; }' if not self.plain else '%{\n#define YYSTYPE int\n%}']
        for t, g in self.ttag.items():
            o.append(('%%token <%s> %s' % (g, t)).replace('<i> ' if self.plain else '?', ''))
        for i in range(0 if self.plain else self.n):
            o.append('%%type <%s> n%d%s' % (self.tag[i], i, '(' + ', '.join('<%s>' % t for t, _ in self.par[i]) + ')' if self.par[i] else ''))
        o.append('%start n0\n%%')
        for i in range(self.n):
            hd = 'n%d' % i + ('(' + ','.join('$' + n for _, n in self.par[i]) + ')' if self.par[i] else '')
            for k, (items, show) in enumerate(self.alts[i]):
                b = []
                for x in items:
                    if x[0] == 't':
                        b.append(x[1])
                    elif x[0] == 'm':
                        b.append(self.action(i, k, x[1], items, True))
                    else:
                        b.append('n%d' % x[1] + ('(' + (',' if x is items[0] else self.rng.choice([',', ', '])).join(t.replace('$<i>', '$') if self.plain else t for t, _ in x[2]) + ')' if x[2] else ''))
                if k == 0 or self.rng.random() < 0.3:
                    o.append('%s%s : %s %s' % (';\n' if i or k else '', hd, ' '.join(b), self.action(i, k, show, items, False)))
                else:
                    o.append('  | %s %s' % (' '.join(b), self.action(i, k, show, items, False)))
        o.append(';\n%%')
        sv = 'switch (t) {' + ''.join(' case %s: yylval%s = vf_pos; break;' % (x[0], '' if self.plain else '.' + x[1]) for x in self.ttag.items()) + ' }'
        o.append(by.FULL_DEF % dict(codes=''.join(', T%d' % (i + 1) for i in range(self.nt)), nr=1))
        o.append('int yylex(void) { int t; vf_pos++; t = vf_pos <= vf_n ? vf_codes[vf_t[vf_pos - 1]] : 0; memset(&yylval, 0, sizeof yylval); %s return t; }' % sv)
        o.append('void yyerror(const char *s) { vf_ev(" e"); }')
        o.append(by.MAIN % dict(p='yy', pre='', post='', call=''))
        return '\n'.join(o) + '\n'

    def derive(self, budget):
        """(tokens, events) of a random sentence."""
        rng = self.rng
        toks, ev = [], []
        node = [0]
        left = [budget]

        def go(i, args):
            al = self.alts[i]
            left[0] -= 1
            k = 0 if left[0] < 0 else rng.randrange(len(al))
            items, show = al[k]
            a = {nm: v for (_, nm), v in zip(self.par[i], args)}
            v = []
            for x in items:
                if x[0] == 't':
                    toks.append(int(x[1][1:]))
                    v.append(len(toks))
                elif x[0] == 'm':
                    v.append(act(x[1], v, a, 'm%d.%d' % (i, k)))
                else:
                    v.append(go(x[1], args if x[2] is None else [fn(v, a) for _, fn in x[2]]))
            return act(show, v, a, 'r%d.%d' % (i, k))

        def act(show, v, a, nm):
            n, names = show
            ev.append(nm + ''.join(',%d' % x for x in v[:n]) + ''.join(',%d' % a[q] for _, q in names))
            node[0] += 1
            return 100000 + node[0]
        import sys
        sys.setrecursionlimit(5000)
        go(0, [])
        return toks, ev


def inherited(ctx, c):
    rng = c.rng
    A = Attr(rng)
    text = A.text()
    c.write('g.y', text)
    opts = [x for x in ('-B', '-t', '-l') if rng.random() < 0.15]
    r = by.run_byacc(c, 'byacc', opts)
    files = {'g.y': text, 'cmd': 'byacc ' + ' '.join(opts) + ' g.y\n', 'stderr': r.err}
    if r.slow:
        return c.inconclusive('slow')
    if r.bad() or r.rc or 'conflict' in r.etext or 'wrong' in r.etext:
        return c.violation('inherited-generator', 'byacc on an attribute grammar: %s (exit %s)\n%s' % (r.bad(), r.rc, r.etext[:600]), files)
    rc, msg = env.compile_c(['y.tab.c'], 'p', cwd=c.dir)
    if rc:
        return c.violation('inherited-compile', 'the generated parser does not compile:\n' + msg[:2000], files)
    ds = [A.derive(rng.choice([1, 3, 6, 10, 20, 40])) for _ in range(40)]
    ds = [d for d in ds if len(d[0]) < 400]
    lines = by.drive(c, './p', [d[0] for d in ds], 'byacc ' + ' '.join(opts), files)
    if lines is None:
        return
    c.count('attribute grammars')
    for (toks, ev), line in zip(ds, lines):
        got = line.split()
        c.evals += 1
        if got != ev + ['=0']:
            k = next((i for i, (x, y) in enumerate(zip(got + [''], ev + ['=0'])) if x != y), -1)
            files['input'] = by.feed([toks])
            return c.violation('inherited', 'byacc %s: event %d is %s, expected %s\n%s\ninput %s\nexpected %s\nobserved %s' % (
                ' '.join(opts), k, got[k] if k < len(got) else None, (ev + ['=0'])[k], text.split('%%')[1], toks, ' '.join(ev)[:900], line[:900]), files)
        c.saw(text, tuple(toks))
