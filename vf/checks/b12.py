"""B12: -E writes an equivalent lemon grammar."""
import random, re, sqlite3
from .. import env, gen, by, bplain, le, lplain, oracle
from ..lr import LALR, Grammar, byacc_table, lemon_table, run

TECH = ('runtime output monitor: the sanitized generator\'s -E file is run through the sanitized lemon, its SQL export, conflict count and the compiled parser\'s verdicts '
        'are compared with the grammar that was written')
NOTE = ('Held on the runs observed; symbols are matched by position, so any consistent renaming is accepted. The parser\'s verdicts are compared with the reference automaton '
        'under byacc\'s rules, and byacc\'s own conflict count with lemon\'s.')
TOOLS = ['byacc-san', 'nbyacc-san', 'lemon-san']
RULE = ('one evaluation = one rule, precedence or conflict count compared, or one token sequence given to the lemon parser built from the -E file; distinct nontrivial = '
        'distinct (grammar, spelling) and (grammar, input) compared')
ASSUMES = ['the reference automaton and resolution rules (vf/lr.py)', 'where lemon\'s documented rules differ (reduce/reduce conflicts between rules with precedences, %nonassoc) '
           'lemon\'s own rules are the reference', 'grammars that are cyclic or hidden left-recursive are not run']

# name, grammar, why
COLLIDE = [
    ('literal-name', "%token a\n%%\ns : 'a' a ;\n", 2, "the literal 'a' and the token a both become Tk_a"),
    ('string-name', '%token Tk_x\n%%\ns : "x" Tk_x ;\n', 2, 'the string "x" and the token Tk_x both become Tk_x'),
    ('ascii-name', "%token Tk_PLUS\n%%\ns : '+' Tk_PLUS ;\n", 2, "the literal '+' and the token Tk_PLUS both become Tk_PLUS"),
    ('dot-name', '%token x.y X_y x_y\n%%\ns : x.y x_y ;\n', 3, 'the tokens x.y and x_y both become Tk_x_y'),
    ('long-name', '%%token %s1 %s2\n%%%%\ns : %s1 %s2 ;\n' % (('A' * 70,) * 4), 2, 'names are cut to 63 characters'),
    ('rule-name', '%token A B\n%%\ns : Expr l_Expr ;\nExpr : A ;\nl_Expr : B ;\n', 2, 'the nonterminals Expr and l_Expr both become l_Expr'),
    ('dollar-name', '%token A$B\n%%\ns : A$B ;\n', 1, '$ is kept, which lemon does not accept in names'),
]


def plan(ctx):
    k = 8 if ctx.thorough else 1
    out = [['g', i] for i in range(420 * k)]
    random.Random(ctx.seed).shuffle(out)
    return [['name', i] for i in range(len(COLLIDE))] + [['lits', i] for i in range(6)] + out


def key(s):
    return re.sub('[^a-z0-9]', '', s.lower())


DRV = r'''
%%include {
#include <stdio.h>
#include <stdlib.h>
static int vf_err, vf_acc;
}
%%token_type {int}
%%default_type {int}
%%syntax_error { vf_err = 1; }
%%parse_accept { vf_acc = 1; }
%%parse_failure { }
%%stack_overflow { printf("O"); }
%%stack_size 0
%%code {
static int vf_codes[] = { 0%(codes)s };
int main(void)
{
    int i, n, *t;
    while (scanf("%%d", &n) == 1) {
        void *p = ParseAlloc(malloc);
        t = malloc(sizeof(int) * (n + 1));
        for (i = 0; i < n; i++) if (scanf("%%d", &t[i]) != 1) return 9;
        vf_err = vf_acc = 0;
        for (i = 0; i <= n && !vf_err; i++) Parse(p, i < n ? vf_codes[t[i]] : 0, 0);
        printf("%%c%%d\n", vf_err ? 'e' : vf_acc ? 'a' : '?', i - 1);
        ParseFree(p, free);
        free(t);
    }
    return 0;
}
}
'''


def names(ctx, c):
    kid, text, n, why = COLLIDE[c.spec[1]]
    c.write('g.y', text)
    r = by.run_byacc(c, 'byacc', ['-E'])
    files = {'g.y': text, 'cmd': 'byacc -E g.y; lemon -S y.yl\n', 'stderr': r.err}
    if r.bad() or r.rc:
        return c.violation('generator', '%s (exit %s)' % (r.bad() or 'fails', r.rc), files)
    files['y.yl'] = open(c.path('y.yl'), 'rb').read()
    q = le.run_lemon(c, ['-S'], 'y.yl')
    c.evals += 1
    ok = not q.bad() and q.rc == 0
    if ok:
        db = sqlite3.connect(':memory:')
        db.executescript(open(c.path('y.sql')).read())
        m = lplain.parse_sql(db)
        ok = len(m['terms']) - ('$' in m['terms']) == n if kid != 'rule-name' else len(m['rules']) == 3 and len(set(x[0] for x in m['rules'])) == 3
    if not ok:
        return c.violation(kid, why + ', so the -E file is not an equivalent grammar', files)


def case(ctx, c):
    if c.spec[0] == 'name':
        return names(ctx, c)
    rng = c.rng
    lits = c.spec[0] == 'lits'
    if lits:
        # many literals, each with its own follower
        n = 140
        g = gen.g_text('s: %s' % ' | '.join('T%d T%d' % (i, (i + 1) % n) for i in range(n)))
    for _ in range(0 if lits else 50):
        g = bplain.grammar(rng, ('cf', 'cf', 'amb', 'amb'))
        if g.err is None and len(g.rules) < 120:
            break
    else:
        if not lits:
            return
    variant = 'byacc' if rng.random() < 0.6 else 'nbyacc'
    nm = bplain.Names(g, rng)
    if lits:
        codes = list(range(1, 129)) + rng.sample(range(129, 256), 12)
        rng.shuffle(codes)
        for t, x in zip(range(1, g.T), codes):
            nm.key[t] = ('c', x)
            nm.num.pop(t, None)
    ks = [v if isinstance(v, str) else ''.join('%02x' % x for x in v) if isinstance(v, bytes) else 'chr%d' % v for k, v in (nm.key[x] for x in nm.key)]
    strs = [key(v.decode('latin-1')) for k, v in nm.key.values() if k == 's']
    idents = [key(v) for k, v in nm.key.values() if k in 'tn']
    both = strs + idents
    if len(set(both)) < len(both) or any(len(x) > 50 for x in both) or len(set(ks)) < len(ks) or any(len(x) < 2 for x in both) or any('$' in str(v) for _, v in nm.key.values()):
        nm = bplain.Names(g, rng, string=0, odd=0) if not lits else nm
    if nm.key[g.start][1] == 'x_start_rule_':
        return
    if rng.random() < 0.5:
        text, bare, mids = bplain.emit(g, nm, rng, mid=0, btyacc=variant == 'byacc')
    else:
        text, bare, mids = bplain.emit(g, nm, rng, mid=0, act=0, typed=0, btyacc=variant == 'byacc')
    z = rng.random() < 0.3
    c.write('g.y', text.encode('latin-1'))
    opts = ['-E'] + (['-z'] if z else []) + [o for o in ('-d', '-v', '-l', '-t') if rng.random() < 0.1]
    lopts = [] if z else ['-z']
    r = by.run_byacc(c, variant, opts)
    files = {'g.y': text.encode('latin-1'), 'cmd': '%s %s g.y; lemon -S %s y.yl\n' % (variant, ' '.join(opts), ' '.join(lopts)), 'stderr': r.err}
    if r.slow:
        return c.inconclusive('generator slow')
    if r.bad() or r.rc:
        return c.violation('generator', '%s %s: %s (exit %s)\n%s' % (variant, opts, r.bad() or 'fails', r.rc, r.etext[:800]), files)
    out = open(c.path('y.yl'), 'rb').read().decode('latin-1')
    files['y.yl'] = out
    # the reference automata
    rec = any(g.start in x for _, x in g.rules)
    g2 = Grammar(g.T, g.N + rec, ([(g.T + g.N, (g.start,))] if rec else []) + list(g.rules), g.T + g.N if rec else g.start,
                 ([None] if rec else []) + list(g.rprec), g.tprec, None, list(g.terms), list(g.nts) + ['x_start_rule_'] * rec)
    a, a2 = LALR(g), LALR(g2, augmented=False)
    tb, tl = byacc_table(a, z=z), lemon_table(a2, z=not z)
    n = sum(by.conflicts(r.etext))
    q = le.run_lemon(c, ['-S'] + lopts, 'y.yl')
    files['lemon-stderr'] = q.err
    if q.slow:
        return c.inconclusive('generator slow')
    dead = [i for i in range(len(g2.rules)) if i not in tl.used]
    if q.bad() or q.rc and not (dead or tl.conf):
        return c.violation('rejected', 'lemon on the -E file: %s (exit %s)\n%s' % (q.bad() or 'fails', q.rc, q.etext[:800]), files)
    bad = [x for x in q.etext.split('\n') if x and not re.search(r'This rule can not be reduced|parsing conflict', x)]
    if bad:
        return c.violation('rejected', 'lemon on the -E file: %s' % '\n'.join(bad)[:800], files)
    ln = le.conflicts(q.etext)
    c.evals += 1
    if ln != tl.sr + tl.rr:
        return c.violation('conflicts', 'lemon reports %d conflicts for the -E file, the grammar has %d (byacc reports %d)' % (ln, tl.sr + tl.rr, n), files)
    if n != ln:
        c.count('conflict counts that differ by design')
        if tb.sr + tb.rr == tl.sr + tl.rr:
            return c.violation('conflicts', 'lemon reports %d conflicts for the -E file, byacc %d for the grammar' % (ln, n), files)
    # the grammar as lemon sees it
    db = sqlite3.connect(':memory:')
    db.executescript(open(c.path('y.sql')).read())
    m = lplain.parse_sql(db)
    rules = list(m['rules'])
    if len(rules) != len(g2.rules):
        return c.violation('rules', '%d rules in the -E file, the grammar has %d' % (len(rules), len(g2.rules)), files)
    # the start rule may stand anywhere
    to, back = {}, {}

    def put(x, name, term):
        if (name not in m['nts']) != term or to.setdefault(x, name) != name or back.setdefault(name, x) != x:
            raise lplain.Bad('%s is written %s (also %s is %s)' % (g2.name(x), name, g2.name(back.get(name, x)), to.get(x)))
    try:
        if rec:
            for i, (l, rr, p) in enumerate(rules):
                if l == m['start']:
                    rules.insert(0, rules.pop(i))
                    break
        put(g2.start, m['start'], False)
        for (l, rr, p), (gl, gr), gp in zip(rules, g2.rules, g2.rprec):
            c.evals += 1
            put(gl, l, False)
            if len(rr) != len(gr):
                raise lplain.Bad('rule %s has %d symbols, expected %d' % (l, len(rr), len(gr)))
            for x, y in zip(rr, gr):
                if isinstance(x, tuple):
                    if len(x) != 1:
                        raise lplain.Bad('several terminals in one place')
                    x = x[0]
                put(y, x, y < g.T)
            if (p is None) != (gp is None):
                raise lplain.Bad('rule %s has the mark %s, expected %s' % (l, p, gp))
            if p is not None:
                put(gp, p, True)
        terms = m['terms'] - {'$'}
        left = sorted(terms - set(to.values()))
        used = [t for t in range(1, g.T) if t not in to]
        # tokens in no rule: by their level
        for t in sorted(used, key=lambda t: (t in g.tprec, t)):
            cand = [x for x in left if (x in m['prec']) == (t in g.tprec)]
            ident = [x for x in cand if nm.key[t][0] == 't' and key(x) in (key(nm.key[t][1]), 'tk' + key(nm.key[t][1]))]
            if not cand:
                raise lplain.Bad('the token %s is missing' % (nm.key[t],))
            x = (ident or cand)[0]
            if not ident and nm.key[t][0] == 't' or len(cand) > 1 and not ident:
                x = None            # cannot tell which
            if x:
                left.remove(x)
                put(t, x, True)
        want = bplain.prec_order({to[t]: v for t, v in g.tprec.items() if t in to})
        got = bplain.prec_order({x: v for x, v in m['prec'].items() if x in back})
        if got != want:
            raise lplain.Bad('precedences are %s, expected %s' % (sorted(got.items()), sorted(want.items())))
        if len(terms) != g.T - 1 - sum(nm.key[t][0] == 's' and t not in to for t in range(1, g.T)) and len(terms) != g.T - 1:
            raise lplain.Bad('%d tokens, expected %d' % (len(terms), g.T - 1))
    except lplain.Bad as e:
        return c.violation('grammar', 'the -E file: %s\n%s' % (e, g.text()), files)
    c.saw(text)
    c.count('grammars')
    c.count('recursive start symbols', int(rec))
    c.count('grammars with conflicts', int(ln > 0))
    c.count('grammars with precedences', int(bool(g.tprec)))
    if g.loopy() or dead or any(t not in to for t in range(1, g.T) if any(t in x for _, x in g.rules)):
        return
    # the parser
    tx = out + DRV % dict(codes=''.join(', ' + (to[t] if t in to else '0') for t in range(1, g.T)))
    c.write('w.yl', tx.encode('latin-1'))
    files['w.yl'] = tx
    q = le.run_lemon(c, lopts, 'w.yl')
    if q.slow:
        return c.inconclusive('generator slow')
    if q.bad() or q.rc and not tl.conf:
        return c.violation('rejected', 'lemon on the -E file with a driver: %s (exit %s)\n%s' % (q.bad() or 'fails', q.rc, q.etext[:800]), files)
    rc, msg = env.compile_c(['w.c'], 'p', cwd=c.dir)
    if rc:
        return c.violation('compile', 'the lemon parser does not compile:\n' + msg[:1500], files)
    I = gen.Inputs(g, a, rng)
    ins = []
    for x in I.many(tb, 15, 25, 8, 120, 20, 50):
        rb, rl = run(a, tb, x, 100000), run(a2, tl, x, 100000)
        if rb is None or rl is None:
            continue
        if (rb.ok, rb.pos) != (rl.ok, rl.pos):
            c.count('inputs decided differently by design')
        ins.append((x, rl))
    if not ins:
        return
    r = env.run(['./p'], by.feed([x for x, _ in ins]), cwd=c.dir, cpu=25)
    if r.slow:
        return c.inconclusive('driver slow')
    lines = r.text.split('\n')[:-1]
    if r.bad() or r.rc or len(lines) != len(ins):
        return c.violation('parser-run', 'the lemon parser %s (exit %s) on input %d\n%s' % (r.bad() or 'stopped', r.rc, len(lines), r.etext[:2000]), files)
    for (x, w), line in zip(ins, lines):
        c.evals += 1
        exp = 'a%d' % len(x) if w.ok else 'e%d' % w.pos
        if line != exp:
            return c.violation('language', 'input %s: the lemon parser says %s, expected %s\n%s' % (' '.join(g.name(y) for y in x), line, exp, g.text()), dict(files, input=by.feed([x])))
        c.saw(g.rules, tuple(x))
        c.count('sentences' if w.ok else 'other inputs')
    c.sample(dict(grammar=g.text()[:300], yl=out[:400], input=[g.name(y) for y in ins[0][0]], verdict=lines[0]))
