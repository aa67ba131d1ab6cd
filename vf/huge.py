"""Grammars whose tables have a wanted size: their parsers' behaviour is known by construction, no automaton is needed.

A rule is x : A_i B_j C_k (or n_k, which is C_k alone), with one k for each pair (i, j), or x : Z_p, or x : D Z_p Y_p;
a sentence is a sequence of such phrases.  The start symbol is  top : s,  s : x | s x."""


import re


class Big:
    def __init__(self, rng, n, every=3):
        self.n = n
        self.k = max(2, int(n ** 0.5) + rng.randint(0, 2))
        self.mul = rng.choice([1, 3, 7, 11])
        self.every = every          # every so-manieth third symbol is a nonterminal (0: none)
        self.units = 0              # x : Z_p
        self.threes = 0             # x : D Z'_p Y
        self.rng = rng

    def phrases(self):
        """[(symbols, events)]: rule numbers in the order of the reductions; rule 0 is top, 1 and 2 are s."""
        k = self.k
        out = []
        used = set()
        for i in range(self.n):
            c = (i * self.mul) % k
            m = self.every and i % self.every == 0
            out.append((['A%d' % (i // k), 'B%d' % (i % k), 'C%d' % c], 'n%d' % c if m else None))
            if m:
                used.add(c)
        for p in range(self.units):
            out.append((['Z%d' % p], None))
        for p in range(self.threes):
            out.append((['D', 'ZZ%d' % p, 'Y'], None))
        self.used = sorted(used)
        return out

    def build(self):
        ph = self.phrases()
        self.rules = [('top', ['s']), ('s', ['x']), ('s', ['s', 'x'])]
        self.terms = {}
        nr = {}
        self.sent = []
        rhs = []
        for sy, nt in ph:
            rhs.append((sy[:2] + [nt]) if nt else sy)
        # in this order the tables pack quickly
        for t in sorted({t for sy, _ in ph for t in sy}, key=lambda t: (t.rstrip('0123456789'), int(re.sub(r'\D', '', t) or 0))):
            self.terms[t] = len(self.terms) + 1
        for r in rhs:
            self.rules.append(('x', r))
        for c in self.used:
            nr['n%d' % c] = len(self.rules)
            self.rules.append(('n%d' % c, ['C%d' % c]))
        for j, (sy, nt) in enumerate(ph):
            self.sent.append(([self.terms[t] for t in sy], ([nr[nt]] if nt else []) + [3 + j]))
        return self

    def inputs(self, n=12, most=6000):
        """[(tokens, reductions, index of the wrong token or None)]"""
        rng = self.rng
        S = self.sent
        order = list(range(len(S)))
        rng.shuffle(order)
        out = []
        for a in range(0, min(len(order), 8 * most), most):
            out.append((order[a:a + most], None))
        tail = order[:0] + list(range(len(S)))[-8:]
        out.append((tail, None))
        for _ in range(n):
            w = [rng.randrange(len(S)) for _ in range(rng.randint(1, 20))]
            out.append((w, rng.choice([None, 0, 1, 2, 'end'])))
        res = []
        start = {p[0][0] for p in S}
        ab = {}
        for p in S:
            if len(p[0]) == 3:
                ab.setdefault(p[0][0], set()).add(p[0][1])
        nt = len(self.terms)
        for w, bad in out:
            toks, ev = [], []
            for q in w:
                toks += S[q][0]
                ev += S[q][1] + [2 if len(ev) else 1]
            err = None
            if bad is not None:
                q = rng.choice(S)
                head = q[0]
                k = bad if bad != 'end' else rng.randint(1, 2)
                if k >= len(head):
                    k = 0
                ok = start if k == 0 else ab.get(head[0], set()) if k == 1 else {head[2]}
                x = 0 if bad == 'end' and k else rng.randint(1, nt)
                if x not in ok and not (x == 0 and k == 0):
                    err = len(toks) + k
                    toks = toks + head[:k] + ([x] if x else [])
            if err is None:
                ev = ev + [0]
            res.append((toks, ev, err))
        return res

    def lemon(self):
        o = ['%include {\n#include <stdio.h>\n#include <stdlib.h>\nstatic int vf_bad, vf_ok, vf_at;\n}', '%token_type {int}', '%syntax_error { vf_bad = 1; printf(" e%d", vf_at); }', '%parse_accept { vf_ok = 1; }',
             '%token ' + ' '.join(self.terms) + '.']
        for i, (l, r) in enumerate(self.rules):
            o.append('%s ::= %s. { printf(" %d"); }' % (l, ' '.join(r), i))
        o.append('''%code {
int main(void) {
    int n, i, t;
    while (scanf("%d", &n) == 1) {
        void *p = ParseAlloc(malloc);
        vf_bad = vf_ok = 0;
        for (i = 0; i < n; i++) { if (scanf("%d", &t) != 1) return 9; vf_at = i; if (!vf_bad) Parse(p, t, t); }
        vf_at = n;
        if (!vf_bad) Parse(p, 0, 0);
        ParseFree(p, free);
        printf(" =%d\\n", vf_ok && !vf_bad);
    }
    return 0;
}
}''')
        return '\n'.join(o) + '\n'

    def byacc(self):
        o = ['%{\n#include <stdio.h>\nint yylex(void);\nvoid yyerror(const char *s);\n%}']
        o += ['%%token %s' % t for t in self.terms]
        o.append('%%')
        prev = None
        for i, (l, r) in enumerate(self.rules):
            o.append('%s %s { printf(" %d"); }' % ('  |' if l == prev else (';\n' if prev else '') + l + ' :', ' '.join(r), i))
            prev = l
        o.append(';\n%%\nstatic int vf_at, vf_n, vf_code[] = { 0' + ''.join(', ' + t for t in self.terms) + ' };')
        o.append('''int yylex(void) { int t; vf_at++; return vf_at < vf_n && scanf("%d", &t) == 1 ? vf_code[t] : 0; }
void yyerror(const char *s) { printf(" e%d", vf_at); }
int main(void) {
    int r;
    while (scanf("%d", &vf_n) == 1) {
        vf_at = -1;
        r = yyparse();
        for (vf_at++; vf_at < vf_n; vf_at++) { int t; if (scanf("%d", &t) != 1) return 9; }
        printf(" =%d\\n", r == 0);
    }
    return 0;
}''')
        return '\n'.join(o) + '\n'


def check(c, big, what, files, run):
    """Feeds the compiled parser ./p and compares every line."""
    ins = big.inputs()
    feed = ''.join('%d %s\n' % (len(t), ' '.join(map(str, t))) for t, _, _ in ins)
    r = run(['./p'], feed, cwd=c.dir, cpu=60)
    if r.slow:
        return c.inconclusive('parser slow')
    lines = r.text.split('\n')
    if r.bad() or r.rc:
        return c.violation('huge-run', '%s: generated parser %s (exit %s)\n%s' % (what, r.bad(), r.rc, r.etext[:1500]), files)
    for (toks, ev, err), line in zip(ins, lines + [''] * len(ins)):
        c.evals += 1
        want = [str(x) for x in ev] + (['e%d' % err] if err is not None else []) + ['=%d' % (err is None)]
        got = line.split()
        if got != want:
            k = next((i for i, (x, y) in enumerate(zip(got + ['']*len(want), want)) if x != y), len(want))
            f = dict(files)
            f['input'] = '%d %s\n' % (len(toks), ' '.join(map(str, toks)))
            return c.violation('huge', '%s: event %d is %s, expected %s\n%d rules, %d tokens' % (
                what, k, got[k] if k < len(got) else None, want[k] if k < len(want) else 'the end', len(big.rules), len(big.terms)), f)
        c.saw(big.n, big.units, big.threes, big.every, tuple(toks[:50]), err)
    c.count('tables of a wanted size')
