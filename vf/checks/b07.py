"""B07: backtracking parsers against a model of the documented search."""
import random
from .. import env, gen, by
from ..lr import LALR, bits, byacc_rule_prec

TECH = 'runtime event monitor: -B parsers under ASan/UBSan, whole event log compared with a model of the depth-first search'
NOTE = ('Held on the executions observed: order of trials, what runs during trials ([ ] actions) and afterwards ({ } actions), YYVALID, '
        'YYERROR in trials, tokens read once, and the furthest error are all predicted by the model.')
TOOLS = ['byacc-san']
RULE = ('one evaluation = one token sequence parsed by a generated -B parser of a grammar with conflicts, its complete event log (tokens read, trial and '
        'final actions with values, error, result) compared with the model; distinct nontrivial = distinct (grammar, actions, input) that hit a conflict')
ASSUMES = ['the reference automaton (vf/lr.py) and the search model in this file']


def plan(ctx):
    k = 6 if ctx.thorough else 1
    out = [['bt', i] for i in range(330 * k)]
    random.Random(ctx.seed).shuffle(out)
    return [['first', 0]] + out


FIRST = r'''
%{
#include <stdio.h>
int yylex(void);
void yyerror(const char *s);
%}
%%
s : a 'x' | b 'x' ;
a : 'y' [ YYERROR; ] ;
b : 'y' [ YYERROR; ] ;
%%
static int k;
int yylex(void) { static char t[] = "yx"; return t[k] ? t[k++] : 0; }
void yyerror(const char *s) { puts(s); }
int main(void) { printf("%d\n", yyparse()); return 0; }
'''


class Plan:
    def __init__(self):
        self.trial = {}      # (state, token) -> list of actions
        self.act = []        # state -> {token: action}
        self.ok = True
        self.df = []
        self.mixed = False


def table(a):
    g = a.g
    P = Plan()
    for s in range(a.nstates):
        cand = {}
        for x, q in a.trans[s].items():
            if x < g.T:
                cand.setdefault(x, []).append(('s', q))
        for ri in sorted(a.la[s]):
            for x in bits(a.la[s][ri]):
                cand.setdefault(x, []).append(('r', ri))
        if s == a.accept_state and 0 in cand:
            P.ok = False
        act = {}
        rules = set()
        shift = False
        for x, lst in cand.items():
            pref = lst[0]
            dead = set()
            conf = 0
            for c in lst[1:]:
                if pref[0] == 's':
                    p1, p2 = g.tprec.get(x), byacc_rule_prec(g, c[1], False, False)
                    if p1 and p2:
                        if p1[0] < p2[0] or p1[0] == p2[0] and p1[1] == 'L':
                            dead.add(pref)
                            pref = c
                        elif p1[0] > p2[0] or p1[1] == 'R':
                            dead.add(c)
                        else:
                            dead |= {pref, c}
                    else:
                        conf += 1
                else:
                    conf += 1
            alive = [c for c in lst if c not in dead]
            if len(alive) == 1 and not conf:
                act[x] = alive[0]
            elif len(alive) > 1 and conf:
                P.trial[s, x] = alive
                if dead:
                    P.mixed = True
            elif len(alive) == 0 and not conf:
                P.ok = False        # nonassoc: left to B02
            else:
                P.ok = False
            for c in alive:
                if c[0] == 's':
                    shift = True
                else:
                    rules.add(c[1])
        P.act.append(act)
        P.df.append(next(iter(rules)) if not shift and len(rules) == 1 else None)
    return P


class Long(Exception):
    pass


class Acts:
    def __init__(self, g, rng):
        self.kind = []      # '' none, b {}, t [], tb [] {}
        self.cond = {}      # rule -> (j, m, r): YYERROR if $j % m == r
        self.valid = set()
        self.sets = set()   # [ $$ = ... ]
        mode = rng.random()
        for i, (l, r) in enumerate(g.rules):
            if mode < 0.25:
                k = rng.choice(['b', 'b', 'b', ''])
            else:
                k = rng.choice(['', 'b', 'b', 'b', 't', 'tb', 'tb'])
            self.kind.append(k)
            if 't' in k:
                toks = [j for j, x in enumerate(r) if x < g.T]
                if toks and rng.random() < 0.3:
                    m = rng.randint(2, 5)
                    self.cond[i] = (rng.choice(toks) + 1, m, rng.randrange(m))
                if rng.random() < 0.15:
                    self.valid.add(i)
                if k == 't' and rng.random() < 0.5:
                    self.sets.add(i)

    def text(self, g, i):
        k = self.kind[i]
        n = len(g.rules[i][1])
        s = ''
        vals = ''.join(' vf_val($%d);' % (j + 1) for j in range(n))
        if 't' in k:
            s += '[ vf_ev(" t%d/%%d", yytrial != 0);%s' % (i, vals)
            if i in self.sets:
                s += ' $$ = %d;' % (5000 + i)
            if i in self.cond:
                s += ' if ($%d %% %d == %d) YYERROR;' % self.cond[i]
            if i in self.valid:
                s += ' YYVALID;'
            s += ' ] '
        if 'b' in k:
            s += '{ vf_ev(" r%d");%s $$ = vf_new(); }' % (i, vals)
        return s


def run(P, a, A, toks, limit=4000, tr=None):
    """tr: an ysim.Trace, to have the lines of the debugging trace among the events."""
    g = a.g
    ev = tr.start() + tr.grow(200) if tr else []
    d = lambda: len(st) - 1
    discard = lambda s: [tr.epop(j, s[j]) for j in range(len(s) - 1, -1, -1)] if tr else []
    st, vs = [0], ['?']
    q = 0
    lexed = 0
    la = None
    cps = []            # saved choice points
    path = []
    best = None
    node = 0
    steps = 0
    hits = 0
    n = len(toks)
    todo = None         # pending reduction
    err = None
    while True:
        steps += 1
        if steps > limit or len(st) > 1500 or len(cps) > 400:
            raise Long()
        if err:
            # err: 'syntax' or 'YYERROR'
            if cps:
                if best is None or best[0] < q:
                    best = (q, list(st), list(vs), la)
                base = cps[0][2]
                while cps:
                    cp = cps[-1]
                    if tr:
                        ev.append(tr.line(d(), 'ERROR in state %d, CONFLICT BACKTRACKING to state %d, %d tokens' % (tr.num[st[-1]], tr.num[cp[5]], q - cp[2]), True))
                        st, q = list(cp[0]), cp[2]
                    cp[4] += 1
                    if cp[4] < len(cp[3]):
                        st, vs, q, la = list(cp[0]), list(cp[1]), cp[2], None
                        todo = cp[3][cp[4]][1]
                        break
                    # every alternative failed: its context is restored before looking further back
                    cps.pop()
                    if cps:
                        pass
                if cps:
                    err = None
                else:
                    if tr:
                        ev.append('|%sdebug[%d,trial]: trial parse FAILED, entering ERROR mode' % (tr.p, d()))
                    ev.append('e%s' % best[0] if best[0] > base else 'e?')
                    return ev + discard(best[1]) + ['=1'], hits
            else:
                if err == 'syntax':
                    ev.append('e%d' % q)
                return ev + discard(st) + ['=1'], hits
        if todo is None:
            s = st[-1]
            if P.df[s] is not None:
                todo = P.df[s]
            else:
                if la is None:
                    q += 1
                    if q > lexed:
                        ev.append('l')
                        lexed = q
                    la = (toks[q - 1] if q <= n else 0, q)
                    if tr:
                        ev.append(tr.read(d(), s, la[0], la[1], False, bool(cps)))
                x = la[0]
                alts = P.trial.get((s, x))
                if alts:
                    hits += 1
                    if path:
                        ps, c = path.pop(0)
                        assert ps == s
                        if tr:
                            ev.append(tr.line(d(), 'CONFLICT in state %d: following successful trial parse' % tr.num[s], bool(cps)))
                        ac = alts[c]
                    else:
                        if tr:
                            ev.append(tr.line(d(), 'CONFLICT in state %d. %s trial parse.' % (tr.num[s], 'ALREADY in conflict, continuing' if cps else 'Starting'), bool(cps)))
                            if alts[0][0] == 'r':
                                ev.append(tr.line(d(), 'backtracking 1 token', bool(cps)))
                        cps.append([list(st), list(vs), q - 1, alts, 0, s])
                        ac = alts[0]
                        if ac[0] == 'r':
                            la, q = None, q - 1
                else:
                    ac = P.act[s].get(x)
                if ac is None:
                    err = 'syntax'
                    continue
                if ac[0] == 's':
                    if tr:
                        ev.append(tr.shift(d(), s, ac[1], bool(cps)))
                    st.append(ac[1])
                    vs.append(la[1])
                    la = None
                    continue
                todo = ac[1]
        i = todo
        todo = None
        l, r = g.rules[i]
        k = len(r)
        args = vs[len(vs) - k:] if k else []
        v = args[0] if k else 0
        top = st[-1]
        if tr:
            ev.append(tr.reduce(d(), top, i, list(zip(r, args)), bool(cps)))
        kd = A.kind[i]
        commit = False
        if 't' in kd:
            ev.append('t%d/%d' % (i, 1 if cps else 0) + ''.join(',%s' % x for x in args))
            if i in A.sets:
                v = 5000 + i
            if i in A.cond:
                j, m, w = A.cond[i]
                if args[j - 1] % m == w:
                    if k:
                        del st[-k:], vs[-k:]
                    err = 'YYERROR'
                    continue
            if i in A.valid and cps:
                commit = True
        if not commit and 'b' in kd and not cps:
            ev.append('r%d' % i + ''.join(',%s' % x for x in args))
            node += 1
            v = 100000 + node
        if not commit:
            if k:
                del st[-k:], vs[-k:]
            if st[-1] == 0 and l == g.start and len(st) == 1:
                if tr:
                    ev.append(tr.after(0, 0, a.accept_state, v, l, True, bool(cps)))
                st.append(a.accept_state)
                vs.append(v)
                top = st[-1]
                if la is None:
                    q += 1
                    if q > lexed:
                        ev.append('l')
                        lexed = q
                    la = (toks[q - 1] if q <= n else 0, q)
                    if tr:
                        ev.append(tr.read(d(), top, la[0], None, True, bool(cps)))
                if la[0] == 0:
                    if not cps:
                        return ev + ['=0'], hits
                    commit = True
                else:
                    continue
            else:
                if tr:
                    ev.append(tr.after(d(), st[-1], a.trans[st[-1]][l], v, l, False, bool(cps)))
                st.append(a.trans[st[-1]][l])
                vs.append(v)
        if commit:
            if tr:
                ev.append(tr.line(d(), 'CONFLICT trial successful, backtracking to state %d, %d tokens' % (tr.num[cps[0][5]], q - cps[0][2])).replace(
                    'CONFLICT', 'state %d, CONFLICT' % tr.num[top]))
            path = [(cp[5], cp[4]) for cp in cps]
            cp = cps[0]
            st, vs, q, la = list(cp[0]), list(cp[1]), cp[2], None
            cps = []
            best = None


def emit(g, sp, rng, A):
    out = ['%{', by.ACT_PROTO.replace('static int vf_act(int rule, int n, ...);', ''),
           'static void vf_val(int v);\nstatic int vf_new(void);\n#define YYSTYPE int\nint yylex(void);\nvoid yyerror(const char *s);\n%}']
    out += by.decls(g, sp, rng)
    out.append('%%start %s\n%%%%' % sp.nt[g.start])
    out += by.rules_text(g, sp, lambda i: A.text(g, i), rng)
    out.append('%%')
    out.append(by.FULL_DEF.replace('vf_fired[%(nr)d]', 'vf_none') % dict(codes=''.join(', ' + sp.code[t] for t in range(1, g.T))))
    out.append('int yylex(void) { vf_pos++; vf_ev(" l"); yylval = vf_pos; return vf_pos <= vf_n ? vf_codes[vf_t[vf_pos - 1]] : 0; }')
    out.append('void yyerror(const char *s) { vf_ev(strcmp(s, "syntax error") ? " ?" : " e%d", yylval); }')
    # every parse in its own process: a second call of yyparse is B08's business
    out.append('#include <unistd.h>\n#include <sys/wait.h>')
    out.append((by.MAIN % dict(p='yy', pre='fflush(stdout); { int w; if ((i = fork())) { waitpid(i, &w, 0); free(vf_t); if (w) return 6; continue; } }', post='printf(" n%d", yynerrs);', call='')).replace('fflush(stdout);\n        free(vf_t);', 'fflush(stdout);\n        _exit(0);'))
    return '\n'.join(out) + '\n'


def case(ctx, c):
    rng = c.rng
    if c.spec[0] == 'first':
        c.write('g.y', FIRST)
        r = by.run_byacc(c, 'byacc', ['-B'])
        rc, msg = env.compile_c(['y.tab.c'], 'p', cwd=c.dir)
        if r.rc or rc:
            return c.violation('generator', 'byacc -B: %s\n%s' % (r.etext, msg), {'g.y': FIRST})
        r = env.run(['./p'], cwd=c.dir)
        c.evals += 1
        if r.bad() or r.text != 'syntax error\n1\n':
            c.violation('error-before-first-token', 'when every alternative fails through YYERROR before its first token, the saved error position is '
                        'read from before the queue of tokens: %s %s' % (r.text, r.etext[:600]), {'g.y': FIRST})
        return
    for _ in range(30):
        g = gen.ambiguous(rng, prec=rng.random() < 0.35, assocs='LR')
        a = LALR(g)
        P = table(a)
        if P.ok and P.trial and a.nstates < 120:
            break
    else:
        return
    A = Acts(g, rng)
    sp = by.Spell(g, rng, lit=rng.choice([0, 0.4]))
    text = emit(g, sp, rng, A)
    c.write('g.y', text)
    opts = ['-B'] + [o for o in ('-t', '-l') if rng.random() < 0.1]
    r = by.run_byacc(c, 'byacc', opts)
    files = {'g.y': text, 'cmd': 'byacc ' + ' '.join(opts) + ' g.y\n', 'stderr': r.err}
    if r.slow:
        return c.inconclusive('slow')
    if r.bad() or r.rc:
        return c.violation('generator', 'byacc %s: %s (exit %s)\n%s' % (opts, r.bad(), r.rc, r.etext[:800]), files)
    rc, msg = env.compile_c(['y.tab.c'], 'p', cwd=c.dir, flags=rng.choice([(), (), ('-DYYLVQUEUEGROWTH=2',)]))
    if rc:
        return c.violation('compile', 'the generated parser does not compile:\n' + msg[:2000], files)
    I = gen.Inputs(g, a, rng)
    from ..lr import byacc_table
    t = byacc_table(a)
    inputs, want = [], []
    for x in I.many(t, 40, 25, 12, 200, 25, 40) + I.many(t, 6, 4, 0, 20, 60, 120):
        try:
            m = run(P, a, A, x)
        except Long:
            c.count('inputs left out (search too long)')
            continue
        if 'e?' in m[0]:   # error-before-first-token
            c.count('inputs left out (known finding)')
            continue
        inputs.append(x)
        want.append(m)
    if not inputs:
        return
    lines = by.drive(c, './p', inputs, 'byacc ' + ' '.join(opts), files)
    if lines is None:
        return
    c.count('grammars')
    c.count('grammars where precedence removes some alternatives of a conflict', int(P.mixed))
    for x, (m, hits), line in zip(inputs, want, lines):
        got, nerr, _ = by.split_line(line)
        c.evals += 1
        ok = len(got) == len(m) and all(p == w or w == 'e?' and p[0] == 'e' or 'e' not in w and '?' in w and p.split(',')[0] == w.split(',')[0] for p, w in zip(got, m))
        if not ok or nerr != (sum(1 for e in m if e[0] == 'e')):
            k = next((i for i, (p, w) in enumerate(zip(got + [''], m + [''])) if p != w), -1)
            files['input'] = by.feed([x])
            files['events'] = line
            return c.violation('backtracking', 'byacc %s: event %d is %s, expected %s (yynerrs %s)\n%s\n%s\ninput: %s\nexpected: %s\nobserved: %s' % (
                ' '.join(opts), k, (got + [''])[k], (m + [''])[k], nerr, g.text(), text.split('%%')[1][:1500], ' '.join(g.name(y) for y in x), ' '.join(m)[:1000], line[:1000]), files)
        c.count('accepted' if m[-1] == '=0' else 'rejected')
        c.count('conflicts met', hits)
        c.count('trial actions', sum(1 for e in m if e[0] == 't' and '/1' in e))
        if hits:
            c.saw(g.rules, str(g.tprec), str(A.kind), str(A.cond), str(A.valid), tuple(x))
        if hits > 5:
            c.sample(dict(grammar=g.text()[:400], input=[g.name(y) for y in x], events=' '.join(m)[:400]))
