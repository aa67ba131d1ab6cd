"""Writing grammars for lemon, building the parsers, driving them and reading the events."""
import re
from . import env


class Spell:
    def __init__(self, g, rng=None):
        self.tok = {}
        used = set()
        for t in range(1, g.T):
            n = re.sub(r'\W', '_', g.terms[t])
            n = n[0].upper() + n[1:]
            if not n[0].isalpha():
                n = 'Z' + n
            while n in used:
                n += 'x'
            used.add(n)
            self.tok[t] = n
        self.nt = {}
        used = set()
        for n in range(g.T, g.T + g.N):
            s = re.sub(r'\W', '_', g.nts[n - g.T])
            s = s[0].lower() + s[1:]
            if not s[0].isalpha():
                s = 'z' + s
            if s == 'error':
                s = 'error_'
            while s in used:
                s += 'x'
            used.add(s)
            self.nt[n] = s
        if g.err is not None and g.err >= g.T:
            self.nt[g.err] = 'error'

    def sym(self, s):
        return self.tok[s] if s in self.tok else self.nt[s]


def start_ok(g):
    """lemon wants a start symbol that no right-hand side uses; adds one if needed."""
    if any(g.start in r for _, r in g.rules):
        from .lr import Grammar
        n = g.T + g.N
        return Grammar(g.T, g.N + 1, [(n, (g.start,))] + list(g.rules), n, [None] + list(g.rprec), g.tprec, g.err,
                       list(g.terms), list(g.nts) + ['top_'])
    return g


def prec_lines(g, sp):
    kw = {'L': '%left', 'R': '%right', 'N': '%nonassoc', 'P': '%precedence'}
    lv = {}
    for t, (l, a) in g.tprec.items():
        lv.setdefault((l, a), []).append(t)
    return ['%s %s.' % (kw[a], ' '.join(sp.tok[t] for t in lv[(l, a)])) for l, a in sorted(lv)]


LAB = 'ABCDEFGHIJKLMNOPQSTUVWXYZ'


def label(j):
    return LAB[j] if j < len(LAB) else 'L%d' % j


def plain_action(g, silent):
    def f(i):
        if i in silent:
            return None, None
        k = len(g.rules[i][1])
        return 'R', '{ R = vf_act(%d, %d%s); }' % (i, k, ''.join(', ' + label(j) for j in range(k)))
    return f


def rules_text(g, sp, action, rng=None):
    out = []
    for i, (l, r) in enumerate(g.rules):
        lab, act = action(i)
        parts = []
        for j, x in enumerate(r):
            parts.append(sp.sym(x) + ('(%s)' % label(j) if act else ''))
        s = '%s%s ::= %s.' % (sp.nt[l], '(%s)' % lab if lab else '', ' '.join(parts))
        if g.rprec[i] is not None:
            s += ' [%s]' % sp.tok[g.rprec[i]]
        if act:
            s += ' ' + act
        out.append(s)
    return out


INC = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
static int vf_pos, vf_node, vf_nev, vf_errtok;
static void vf_ev(const char *fmt, ...)
{
    va_list ap;
    if (++vf_nev > 3000000) { printf(" !toomany\n"); fflush(stdout); exit(5); }
    va_start(ap, fmt); vprintf(fmt, ap); va_end(ap);
}
static int vf_act(int rule, int n, ...)
{
    va_list ap; int i;
    va_start(ap, n);
    vf_ev(" r%d", rule);
    for (i = 0; i < n; i++) vf_ev(",%d", va_arg(ap, int));
    va_end(ap);
    return 100001 + vf_node++;
}
'''

MAIN = r'''
static int vf_codes[] = { 0%(codes)s };
static int vf_idx(int code) { int i; for (i = 0; i < (int)(sizeof vf_codes / sizeof vf_codes[0]); i++) if (vf_codes[i] == code) return i; return -1; }
int main(void)
{
    int i, n, *t;
    static char vf_buf[1 << 20];
    setvbuf(stdout, vf_buf, _IOFBF, sizeof vf_buf);
    (void)vf_idx;
    while (scanf("%%d", &n) == 1) {
        void *p;
        t = malloc(sizeof(int) * (n + 1));
        for (i = 0; i < n; i++) if (scanf("%%d", &t[i]) != 1) return 9;
        vf_node = vf_nev = 0;
        p = ParseAlloc(malloc);
        for (i = 0; i <= n; i++) {
            vf_pos = i + 1;
            vf_ev(" t");
            Parse(p, i < n ? vf_codes[t[i]] : 0, i < n ? i + 1 : 0);
            %(stop)s
        }
        vf_ev(" f");
        ParseFree(p, free);
        printf(" =\n");
        fflush(stdout);
        free(t);
    }
    return 0;
}
'''


def emit_plain(g, sp, rng, silent=frozenset(), prefix='TK_', extra=(), inc='', stack=None, stop=True):
    out = ['%token_prefix ' + prefix, '%token_type {int}', '%default_type {int}',
           '%include {' + inc + INC + '}',
           '%syntax_error { vf_ev(" e%d:%d", vf_idx(yymajor), TOKEN); vf_errtok = 1; }',
           '%parse_failure { vf_ev(" F"); }',
           '%parse_accept { vf_ev(" A"); }',
           '%stack_overflow { vf_ev(" O"); }']
    out[3] = out[3].replace('static int vf_pos', 'static int vf_idx(int);\nstatic int vf_pos', 1)
    if stack is not None:
        out.append('%%stack_size %d' % stack)
    for t in range(1, g.T):
        if rng and rng.random() < 0.1:
            out.append('%%token %s.' % sp.tok[t])
    out += prec_lines(g, sp)
    out += list(extra)
    # the start symbol is the left-hand side of the first rule unless declared
    if g.rules[0][0] != g.start or (rng and rng.random() < 0.2):
        out.append('%%start_symbol %s' % sp.nt[g.start])
    out += rules_text(g, sp, plain_action(g, silent), rng)
    codes = ''.join(', ' + prefix + sp.tok[t] for t in range(1, g.T))
    out.append('%code {' + MAIN % dict(codes=codes, stop='if (vf_errtok) { vf_errtok = 0; break; }' if stop else '') + '}')
    return '\n'.join(out) + '\n'


def run_lemon(c, opts, fname='g.y', cwd=None, san=True, env_=None, template=True, **kw):
    exe = c.ctx.tool('lemon' + ('-san' if san else ''))
    return env.run([exe] + (['-T' + c.ctx.tool('lempar.c')] if template else []) + list(opts) + [fname],
                   cwd=cwd or c.dir, env=env_, **kw)


def conflicts(err):
    m = re.search(r'(\d+) parsing conflicts?\.', err)
    return int(m.group(1)) if m else 0


def parse_line(line):
    ev = line.split()
    ob = dict(reds=[], tok=0, errs=[], acc=None, fail=False, over=False, raw=ev, res=None)
    for e in ev:
        k = e[0]
        if k == 't':
            ob['tok'] += 1
        elif k == 'r':
            p = e[1:].split(',')
            ob['reds'].append((int(p[0]), [int(x) for x in p[1:]], ob['tok']))
        elif k == 'e':
            a, b = e[1:].split(':')
            ob['errs'].append((ob['tok'] - 1, int(a), int(b)))
        elif k == 'A':
            ob['acc'] = ob['tok'] - 1
        elif k == 'F':
            ob['fail'] = True
        elif k == 'O':
            ob['over'] = True
        elif k == '=':
            ob['res'] = 0
        elif k == '!':
            ob['res'] = 'too many events'
    return ob
