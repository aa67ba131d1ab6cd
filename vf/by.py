import re
"""Writing grammars for byacc, building the parsers, driving them and reading the events."""
import os, re
from . import env

ESC = {10: '\\n', 9: '\\t', 13: '\\r', 8: '\\b', 12: '\\f', 11: '\\v', 7: '\\a', 92: '\\\\', 39: "\\'"}


def literal(rng, c):
    if c in ESC:
        return "'%s'" % ESC[c]
    if 32 < c < 127:
        return "'%s'" % chr(c)
    if rng is None or rng.random() < 0.5:
        return "'\\%o'" % c
    return "'\\x%x'" % c


LITS = [ord(x) for x in '+-*/()[]{}<>=,;:.!?&|^~@#$%abcXYZ019_`"'] + [39, 92, 10, 9, 32, 127, 255, 128, 1]


class Spell:
    """Terminal and nonterminal spellings of one grammar."""

    def __init__(self, g, rng, lit=0.35, num=0.1, big=2000, plain=False):
        self.tok = {}
        self.code = {}       # C expression of the token code
        self.num = {}        # explicit number
        self.lits = set()
        pool = list(LITS)
        if rng:
            rng.shuffle(pool)
        used = set()
        for t in range(1, g.T):
            if t == g.err:
                self.tok[t] = 'error'
                self.code[t] = '256'
                continue
            if not plain and rng.random() < lit and pool:
                c = pool.pop()
                self.tok[t] = literal(rng, c)
                self.code[t] = str(c)
                self.lits.add(t)
            else:
                self.tok[t] = 'TK_' + re.sub(r'\W', '_', g.terms[t])
                self.code[t] = self.tok[t]
                if not plain and rng.random() < num:
                    v = rng.randint(600, big)
                    if v not in used:
                        used.add(v)
                        self.num[t] = v
        self.nt = {n: (g.nts[n - g.T]) for n in range(g.T, g.T + g.N)}

    def sym(self, s):
        return self.tok[s] if s in self.tok else self.nt[s]


def decls(g, sp, rng=None, tags=None):
    """%token and precedence lines; every token is declared or a literal."""
    out = []
    lv = {}
    for t, (l, a) in g.tprec.items():
        lv.setdefault((l, a), []).append(t)
    intok = [t for t in range(1, g.T) if t not in sp.lits and t != g.err]
    for t in intok:
        tag = '<%s> ' % tags[t] if tags and tags.get(t) else ''
        if t in g.tprec and t not in sp.num and not tag and rng and rng.random() < 0.5:
            continue
        out.append('%%token %s%s%s' % (tag, sp.tok[t], ' %d' % sp.num[t] if t in sp.num else ''))
    if tags:
        for t in sp.lits:
            if tags.get(t):
                out.append('%%token <%s> %s' % (tags[t], sp.tok[t]))
    kw = {'L': '%left', 'R': '%right', 'N': '%nonassoc', 'P': '%precedence'}
    for (l, a) in sorted(lv):
        out.append(kw[a] + ' ' + ' '.join(sp.tok[t] for t in lv[(l, a)]))
    return out


def rules_text(g, sp, action, rng=None, midof={}):
    """Rules in grammar order (consecutive rules of one nonterminal share a left-hand side).
    midof: {nonterminal: its rule} for those that stand for an action inside a rule."""
    out = []
    prev = None
    for i, (l, r) in enumerate(g.rules):
        if l in midof:
            continue
        body = [action(midof[x]) if x in midof else sp.sym(x) for x in r]
        if not r and rng and rng.random() < 0.15:
            body = ['%empty']
        act = action(i)
        mark = None
        if g.rprec[i] is not None:
            mark = '%prec ' + sp.tok[g.rprec[i]]
            if not act or not rng or rng.random() < 0.55 or not r:
                body.append(mark)
            else:
                # the mark may stand anywhere in the rule, behind the action too
                k = rng.randint(0, len(r) + 1)
                if k <= len(r):
                    body.insert(k, mark)
                else:
                    act += ' ' + mark
        if act:
            body.append(act)
        body = ' '.join(body)
        if l == prev:
            out.append('  | ' + body)
        else:
            if prev is not None:
                out.append('  ;')
            out.append('%s : %s' % (sp.nt[l], body))
        prev = l
    out.append('  ;')
    return out


ACT_PROTO = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
static int vf_act(int rule, int n, ...);
static void vf_ev(const char *fmt, ...);
'''

ACT_DEF = r'''
static int vf_codes[] = { 0%(codes)s };
static int *vf_t, vf_n, vf_pos, vf_node, vf_nev;
static void vf_ev(const char *fmt, ...)
{
    va_list ap;
    if (++vf_nev > 3000000) { printf(" !toomany\n"); fflush(stdout); exit(5); }
    va_start(ap, fmt); vprintf(fmt, ap); va_end(ap);
}
static int vf_act(int rule, int n, ...)
{
    va_list ap; int i;
    va_start(ap, n);
    vf_ev(" r%%d", rule);
    for (i = 0; i < n; i++) vf_ev(",%%d", va_arg(ap, int));
    va_end(ap);
    return 100001 + vf_node++;
}
'''

LEX_PLAIN = r'''
int %(p)slex(void)
{
    vf_pos++;
    vf_ev(" l");
    %(p)slval = vf_pos;
    return vf_pos <= vf_n ? vf_codes[vf_t[vf_pos - 1]] : 0;
}
'''
LEX_PURE = r'''
int %(p)slex(%(sig)s)
{
    vf_pos++;
    vf_ev(" l");
    *lvalp = vf_pos;
    %(loc)s
    return vf_pos <= vf_n ? vf_codes[vf_t[vf_pos - 1]] : 0;
}
'''

MAIN = r'''
int main(void)
{
    int i;
    static char vf_buf[1 << 20];
    setvbuf(stdout, vf_buf, _IOFBF, sizeof vf_buf);
    while (scanf("%%d", &vf_n) == 1) {
        vf_t = malloc(sizeof(int) * (vf_n + 1));
        for (i = 0; i < vf_n; i++) if (scanf("%%d", &vf_t[i]) != 1) return 9;
        vf_pos = vf_node = vf_nev = 0;
        %(pre)s
        i = %(p)sparse(%(call)s);
        %(post)s
        printf(" =%%d\n", i);
        fflush(stdout);
        free(vf_t);
    }
    return 0;
}
'''


def plain_action(g, silent):
    def f(i):
        if i in silent:
            return None
        k = len(g.rules[i][1])
        return '{ $$ = vf_act(%d, %d%s); }' % (i, k, ''.join(', $%d' % (j + 1) for j in range(k)))
    return f


def emit_plain(g, sp, rng, silent=frozenset(), pure=False, loc=False, prefix=None, expect=None, extra=(), midof={}):
    p = prefix or 'yy'
    out = []
    if pure:
        out.append('%pure-parser')
    if loc:
        out.append('%locations')
    out.append('%{')
    out.append(ACT_PROTO)
    out.append('#define YYSTYPE int')
    if not pure:
        out.append('int %slex(void);' % p)
    out.append('void %serror(%sconst char *s);' % (p, 'void *l, ' if loc else ''))
    out.append('%}')
    out += decls(g, sp, rng)
    out.append('%%start %s' % sp.nt[g.start])
    out += list(extra)
    out.append('%%')
    out += rules_text(g, sp, plain_action(g, silent), rng, midof)
    out.append('%%')
    codes = ''.join(', ' + sp.code[t] for t in range(1, g.T))
    out.append(ACT_DEF % dict(codes=codes))
    if pure:
        sig = 'YYSTYPE *lvalp' + (', YYLTYPE *llocp' if loc else '')
        out.append(LEX_PURE % dict(p=p, sig=sig, loc='llocp->first_line = llocp->last_line = 1; llocp->first_column = vf_pos; llocp->last_column = vf_pos + 1;' if loc else ''))
    else:
        out.append(LEX_PLAIN % dict(p=p))
    if loc:
        out.append('void %serror(void *l, const char *s) { vf_ev(" e"); }' % p)
    else:
        out.append('void %serror(const char *s) { vf_ev(" e"); }' % p)
    out.append(MAIN % dict(p=p, pre='', post='', call=''))
    return '\n'.join(out) + '\n'


def run_byacc(c, variant, opts, fname='g.y', cwd=None, san=True, env_=None, **kw):
    """Runs the generator; returns the Res (r.bad() tells about crashes)."""
    exe = c.ctx.tool(variant + ('-san' if san else ''))
    return env.run([exe] + list(opts) + [fname], cwd=cwd or c.dir, env=env_, **kw)


STAT = re.compile(r'(\d+) (shift/reduce|reduce/reduce) conflict')


def conflicts(err):
    """(sr, rr) from byacc's stderr."""
    sr = rr = 0
    for m in STAT.finditer(re.sub(r'(?m)^.*: expected .*$', '', err)):
        if m.group(2)[0] == 's':
            sr = int(m.group(1))
        else:
            rr = int(m.group(1))
    return sr, rr


def feed(inputs):
    return ''.join('%d %s\n' % (len(x), ' '.join(map(str, x))) for x in inputs)


def parse_line(line):
    """Events of one parse -> dict."""
    ev = line.split()
    ob = dict(reds=[], lex=0, errs=[], res=None, raw=ev)
    for e in ev:
        k = e[0]
        if k == 'l':
            ob['lex'] += 1
        elif k == 'r':
            p = e[1:].split(',')
            ob['reds'].append((int(p[0]), [int(x) for x in p[1:]], ob['lex']))
        elif k == 'e':
            ob['errs'].append(ob['lex'])
        elif k == '=':
            ob['res'] = int(e[1:])
        elif k == '!':
            ob['res'] = 'too many events'
    return ob


def drive(c, exe, inputs, what, files, cpu=25):
    """Runs the driver over all inputs; returns lines or None after recording a violation."""
    r = env.run([exe], feed(inputs), cwd=c.dir, cpu=cpu)
    if r.slow:
        c.inconclusive('driver slow')
        return None
    b = r.bad()
    lines = r.text.split('\n')
    done = [x for x in lines if ' =' in x]
    if b or r.rc != 0 or len(done) != len(inputs):
        k = len(done)
        c.violation('parser-run', '%s: generated parser %s (exit %s) on input %d: %s\n%s' % (
            what, b or 'stopped', r.rc, k, inputs[k] if k < len(inputs) else None, r.etext[:3000]), files)
        return None
    return lines


def _h(b):
    v = 7
    for x in b:
        v = (v * 33 + x) & 0xffffffff
    return v % 1000003


FRAG = ['$$', '$1', '@1', '@$', '}', '{', '$<i>1', '$', '@', '//', '/*', '*/', ';', '%%', '%}', '|', ':', 'x', '1', "'", '\\"', '\\\\', '\\n', '\\t', '\\0', '?', '$-1', '[', ']', '#']
RAW = {'\\"': b'"', '\\\\': b'\\', '\\n': b'\n', '\\t': b'\t', '\\0': b'\0'}


def junk(rng, check=False):
    """C text with strings, characters and comments full of yacc's own characters; its event says what the strings were."""
    s = ''
    ev = 'J'
    for _ in range(rng.randint(1, 3)):
        fr = [rng.choice(FRAG) for _ in range(rng.randint(0, 9))]
        # '\0' followed by a digit would be another escape
        fr = [x for j, x in enumerate(fr) if not (j and fr[j - 1] == '\\0' and x[0].isdigit())]
        txt = ''.join(fr).replace('??', '?')
        if txt.startswith('0') or '\\01' in txt:
            continue
        val = b''.join(RAW.get(x, x.encode()) for x in fr)
        if b'??' in val:
            continue
        com = ''.join(rng.choice([x for x in FRAG if '*' not in x and '/' not in x]) for _ in range(rng.randint(0, 6)))
        k = rng.random()
        if k < 0.3:
            s += '/* %s */ ' % com
        elif k < 0.5:
            s += '// %s \n ' % com.replace('\\', '')
        ch = rng.choice(["'$'", "'@'", "'}'", "'{'", "'\"'", "'\\''", "'\\\\'", "';'", "'/'"])
        cv = ord({"'\\''": "'", "'\\\\'": '\\'}.get(ch, ch[1]))
        s += '{ static const char q[] = "%s"; ' % txt
        if check:       # reports only strings that are not what was written
            s += 'if (vf_hash(q, sizeof q - 1) != %d || %s != %d) vf_ev(" !text"); } ' % (_h(val), ch, cv)
            continue
        s += 'vf_ev("%s%%u.%%d", vf_hash(q, sizeof q - 1), %s); } ' % (' J' if ev == 'J' else ';', ch)
        ev += ('' if ev == 'J' else ';') + '%d.%d' % (_h(val), cv)
    if check:
        return s
    return (s, ev) if ev != 'J' else None


# ---------------------------------------------------------------- drivers with typed values, locations, destructors
TAGS = {'ix': ('int ix;', '%s'), 'i': ('int i;', '%s'), 'p': ('struct vf_p { int pad[3]; int v; } p;', '%s.v'), 'd': ('double d;', '(int)%s')}


class Full:
    """What the generated driver logs; the model in ysim.py takes the same object."""

    def __init__(self):
        self.silent = frozenset()
        self.special = {}      # rule -> (kind, n-th execution)
        self.dest = {}         # symbol -> label
        self.loc = False
        self.below = {}        # rule -> list of offsets 0, -1, ...
        self.mid = {}          # empty rule of a mid-rule action -> number of symbols before it
        self.midof = {}        # mid-rule nonterminal -> its rule
        self.recovering = False
        self.btpop = False
        self.tags = None       # symbol -> tag or None (untyped), when a %union is used
        self.pure = False
        self.param = False
        self.prefix = None
        self.debug = False
        self.junk = {}         # rule -> (C text, event text)
        self.djunk = {}        # destructor label -> C text
        self.initial = False
        self.cast = frozenset()   # rules that write $<tag>n

    def describe(self):
        return 'special %s dest %s loc %s pure %s tags %s below %s mid %s' % (
            self.special, self.dest, self.loc, self.pure, self.tags, self.below, self.mid)


def add_midrules(rng, g, n):
    """Insert up to n mid-rule actions; returns (grammar, {rule: symbols before}, {nonterminal: rule})."""
    from .lr import Grammar
    rules = list(g.rules)
    rprec = list(g.rprec)
    nts = list(g.nts)
    mid, midof = {}, {}
    for _ in range(n):
        cand = [i for i in range(len(g.rules)) if rules[i][1]]
        if not cand:
            break
        i = rng.choice(cand)
        l, r = rules[i]
        if len(r) > 12:
            continue
        p = rng.randint(0, len(r) - (1 if rng.random() < 0.9 else 0))
        if p == len(r):
            continue            # an action at the end is the rule's action
        m = g.T + len(nts)
        nts.append('vf_mid%d' % len(nts))
        # positions of earlier mid-rules of the same rule shift
        rules[i] = (l, r[:p] + (m,) + r[p:])
        for k, q in list(midof.items()):
            if k in r and r.index(k) >= p:
                mid[q] = mid[q] + 1
        midof[m] = len(rules)
        mid[len(rules)] = p
        rules.append((m, ()))
        rprec.append(None)
    return Grammar(g.T, len(nts), rules, g.start, rprec, g.tprec, g.err, list(g.terms), nts), mid, midof


def left_depth(g):
    """Smallest number of symbols that can be on the stack below each nonterminal."""
    d = {n: None for n in range(g.T, g.T + g.N)}
    d[g.start] = 0
    ch = True
    while ch:
        ch = False
        for l, r in g.rules:
            if d[l] is None:
                continue
            for j, x in enumerate(r):
                if x >= g.T and (d[x] is None or d[x] > d[l] + j):
                    d[x] = d[l] + j
                    ch = True
    return d


def _val(f, sym, ref, dest=False):
    """C expression: int value of $ref."""
    if f.tags is None:
        return '(int)$%s' % ref
    t = f.tags.get(sym)
    if t is None:
        return '(int)$<i>%s' % ref if not dest else '(int)$$.i'
    return TAGS[t][1] % ('$%s' % ref)


def full_action(g, f, i, rhs, below_syms, nsym=None, lhs=None):
    """The action text of rule i; rhs = the symbols $1.. it may use."""
    if i in f.cast and f.tags is not None:
        vals = [TAGS[f.tags.get(x) or 'i'][1] % ('$<%s>%d' % (f.tags.get(x) or 'i', j + 1)) for j, x in enumerate(rhs)]
    else:
        vals = [_val(f, x, j + 1) for j, x in enumerate(rhs)]
    b = f.below.get(i, ())
    for j in b:
        vals.append('(int)$<i>%d' % j if f.tags is not None else '(int)$%d' % j)
    if f.loc:
        s = 'vf_rule(%d, %d); ' % (i, len(rhs))
        for j, v in enumerate(vals):
            s += 'vf_val(%s); ' % v
            if j < len(rhs):
                s += 'vf_loc(@%d); ' % (j + 1)
        s += 'vf_ev(","); vf_loc(@$); '
    else:
        s = 'vf_rule(%d, %d); ' % (i, len(rhs)) + ''.join('vf_val(%s); ' % v for v in vals)
    if f.recovering:
        s += 'vf_ev(",R%d", YYRECOVERING() ? 1 : 0); '
    if f.param:
        s += '++*vf_ctx; '
    if f.tags is None:
        s += '$$ = vf_new(); '
    else:
        t = f.tags.get(lhs)
        if t is None:
            s += '$<i>$ = vf_new(); '
        elif i in f.cast:
            s += TAGS[t][1].replace('(int)', '') % ('$<%s>$' % t) + ' = vf_new(); '
        else:
            s += TAGS[t][1].replace('(int)', '') % '$$' + ' = vf_new(); '
    if i in f.junk:
        s += f.junk[i][0]
    sp = f.special.get(i)
    if sp:
        m = {'E': 'YYERROR;', 'A': 'YYACCEPT;', 'B': 'YYABORT;', 'o': 'yyerrok;', 'c': 'yyclearin;'}[sp[0]]
        s += 'if (++vf_fired[%d] == %d) { vf_ev(" %s"); %s } ' % (i, sp[1], sp[0], m)
    return '{ ' + s + '}'


FULL_DEF = r'''
static int vf_codes[] = { 0%(codes)s };
static int *vf_t, vf_n, vf_pos, vf_node, vf_nev, vf_fired[%(nr)d];
static void vf_ev(const char *fmt, ...)
{
    va_list ap;
    if (++vf_nev > 3000000) { printf(" !toomany\n"); fflush(stdout); exit(5); }
    va_start(ap, fmt); vprintf(fmt, ap); va_end(ap);
}
static void vf_rule(int r, int n) { vf_ev(" r%%d", r); }
static void vf_val(int v) { vf_ev(",%%d", v); }
static int vf_new(void) { return 100001 + vf_node++; }
static unsigned vf_hash(const char *s, int n) { unsigned h = 7; while (n--) h = h * 33 + (unsigned char)*s++; return h %% 1000003; }
'''


def emit_full(g, sp, rng, f, extra=(), decl_extra='', post_main=''):
    p = f.prefix or 'yy'
    out = []
    if f.pure:
        out.append('%pure-parser')
    if f.loc:
        out.append('%locations')
    if f.param:
        out.append('%parse-param { int *vf_ctx }')
    out.append('%{')
    out.append('''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
static void vf_ev(const char *fmt, ...);
static void vf_rule(int r, int n);
static void vf_val(int v);
static int vf_new(void);
static unsigned vf_hash(const char *s, int n);
static int vf_fired[%d];''' % (len(g.rules) + 1))
    if f.tags is None:
        out.append('#define YYSTYPE int')
    if f.loc:
        out.append('#define vf_loc(L) ((L).first_line != (L).first_column || (L).last_line != (L).last_column ? vf_ev("!") : vf_ev("@%d~%d", (L).first_line, (L).last_line))')
    ep = ('void *l, ' if f.loc else '') + ('int *vf_ctx, ' if f.param else '') + 'const char *s'
    out.append('void %serror(%s);' % (p, ep))
    if not f.pure:
        out.append('int %slex(void);' % p)
    out.append(decl_extra)
    out.append('%}')
    if f.tags is not None:
        out.append('%union { ' + ' '.join(v[0] for v in TAGS.values()) + ' }')
    # %destructor
    groups = {}
    for s, lab in f.dest.items():
        groups.setdefault(lab, []).append(s)
    lv = lambda s: _val(f, s, '$', dest=True)
    dl = []
    for lab, syms in groups.items():
        show = 'vf_ev(" d%s:%%d", %s);' % (lab, lv(syms[0]))
        if lab[0] == 'L':
            show += ' vf_loc(@$);'
        k = lab.lstrip('L')[0]
        if k == 's':
            show = show.replace(lv(syms[0]), '(int)$$')
        if lab in f.djunk:
            show = f.djunk[lab] + show + ('' if len(f.djunk[lab]) % 2 else f.djunk[lab])
        body = '%destructor { ' + show + ' } '
        if k == 'n':
            dl.append(body + ' '.join(sp.sym(s) for s in syms))
        elif k == 't':
            dl.append(body + '<%s>' % lab.lstrip('L')[1:])
        elif k == 's':
            dl.append(body + '<*>')
        else:
            dl.append(body + '<>')
    dd = decls(g, sp, rng, f.tags)
    if f.tags is not None:
        for n in range(g.T, g.T + g.N):
            if f.tags.get(n) and n not in f.midof:
                dd.append('%%type <%s> %s' % (f.tags[n], sp.nt[n]))
    if rng.random() < 0.5 and not any(x.lstrip('L')[0] == 'n' for x in groups):
        out += dl + dd
    else:
        out += dd + dl
    out.append('%%start %s' % sp.nt[g.start])
    if f.initial:
        out.append('%initial-action { vf_ev(" I"); @$.first_line = @$.last_line = 3; }')
    out += list(extra)
    out.append('%%')
    prev = None
    for i, (l, r) in enumerate(g.rules):
        if l in f.midof:
            continue
        parts = []
        for j, x in enumerate(r):
            if x in f.midof:
                parts.append(full_action(g, f, f.midof[x], r[:j], None, lhs=x))
            else:
                parts.append(sp.sym(x))
        if g.rprec[i] is not None:
            parts.insert(rng.randint(0, len(parts)) if rng.random() < 0.4 else len(parts), '%prec ' + sp.tok[g.rprec[i]])
        body = ' '.join(parts)
        if i not in f.silent:
            body += ' ' + full_action(g, f, i, r, None, lhs=l)
        if l == prev:
            out.append('  | ' + body)
        else:
            if prev is not None:
                out.append('  ;')
            out.append('%s : %s' % (sp.nt[l], body))
        prev = l
    out.append('  ;')
    out.append('%%')
    codes = ''.join(', ' + sp.code[t] for t in range(1, g.T))
    out.append(FULL_DEF % dict(codes=codes, nr=len(g.rules) + 1))
    if f.tags is None:
        setv = lambda x: '%s = vf_pos;' % x
        sv = setv('*lvalp' if f.pure else p + 'lval')
    else:
        x = '(*lvalp)' if f.pure else p + 'lval'
        tt = [f.tags.get(t) for t in range(g.T)]
        sv = 'switch (vf_pos <= vf_n ? vf_t[vf_pos - 1] : 0) {\n' + ''.join(
            '    case %d: memset(&%s, 0, sizeof %s); %s.%s = vf_pos; break;\n' % (t, x, x, x, {'i': 'i', 'ix': 'ix', None: 'i', 'p': 'p.v', 'd': 'd'}[tt[t]]) for t in range(1, g.T)) + '    }'
    sl = ''
    if f.loc:
        y = '(*llocp)' if f.pure else p + 'lloc'
        sl = '%s.first_line = %s.last_line = %s.first_column = %s.last_column = vf_pos;' % (y, y, y, y)
    sig = 'void'
    if f.pure:
        sig = 'YYSTYPE *lvalp' + (', YYLTYPE *llocp' if f.loc else '')
    out.append('int %slex(%s)\n{\n    vf_pos++;\n    vf_ev(" l");\n    %s\n    %s\n    return vf_pos <= vf_n ? vf_codes[vf_t[vf_pos - 1]] : 0;\n}' % (p, sig, sv, sl))
    out.append('void %serror(%s) { vf_ev(strcmp(s, "syntax error") ? " ?" : " e"); %s }' % (
        p, ep, 'vf_ev("@%d", ((YYLTYPE *)l)->first_line);' if f.loc else ''))
    pre = 'memset(vf_fired, 0, sizeof vf_fired);'
    call, post = '', ''
    if f.param:
        pre += ' int ctx = 0;'
        call = '&ctx'
        post += ' printf(" c%d", ctx);'
    if not f.pure:
        post += ' printf(" n%%d", %snerrs);' % p
    out.append(MAIN % dict(p=p, pre=pre, post=post.replace('%', '%') , call=call))
    return '\n'.join(out) + '\n' + post_main


def split_line(line):
    """(events, yynerrs or None, counter or None)"""
    ev = line.split()
    n = c = None
    out = []
    for e in ev:
        if e[0] == 'n' and e[1:].isdigit():
            n = int(e[1:])
        elif e[0] == 'c' and e[1:].isdigit():
            c = int(e[1:])
        else:
            out.append(e)
    return out, n, c
