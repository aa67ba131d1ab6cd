"""Reference LR machinery, written independently of the generators under test.

Symbols are small integers: terminals 0..T-1 (0 is the end marker), nonterminals T..T+N-1.
"""
import random

EOF = 0


class Grammar:
    """A context-free grammar with precedences.

    terms[0] is '$end'; rules are (lhs, rhs tuple); rprec[i] is an explicit precedence
    terminal or None; tprec maps a terminal to (level >= 1, assoc) with assoc in 'LRNP'.
    err is the terminal (byacc) or nonterminal (lemon) that stands for the error symbol.
    """

    def __init__(self, nterms, nnts, rules, start=None, rprec=None, tprec=None, err=None,
                 terms=None, nts=None):
        self.T = nterms
        self.N = nnts
        self.rules = list(rules)
        self.start = start if start is not None else nterms
        self.rprec = list(rprec) if rprec is not None else [None] * len(self.rules)
        self.tprec = dict(tprec or {})
        self.err = err
        self.terms = terms or (['$end'] + ['T%d' % i for i in range(1, nterms)])
        self.nts = nts or ['n%d' % i for i in range(nnts)]

    def name(self, s):
        return self.terms[s] if s < self.T else self.nts[s - self.T]

    def isterm(self, s):
        return s < self.T

    def copy(self):
        return Grammar(self.T, self.N, self.rules, self.start, self.rprec, self.tprec, self.err,
                       list(self.terms), list(self.nts))

    def text(self):
        out = []
        for i, (l, r) in enumerate(self.rules):
            out.append('%3d %s -> %s%s' % (i, self.name(l), ' '.join(self.name(x) for x in r),
                                           '  [%s]' % self.name(self.rprec[i]) if self.rprec[i] is not None else ''))
        return '\n'.join(out)

    # ---- basic analyses
    def by_lhs(self):
        d = {}
        for i, (l, _) in enumerate(self.rules):
            d.setdefault(l, []).append(i)
        return d

    def productive(self):
        prod = set(range(self.T))
        ch = True
        while ch:
            ch = False
            for l, r in self.rules:
                if l not in prod and all(x in prod for x in r):
                    prod.add(l)
                    ch = True
        return prod

    def reachable(self):
        by = self.by_lhs()
        seen = {self.start}
        st = [self.start]
        while st:
            for i in by.get(st.pop(), ()):
                for x in self.rules[i][1]:
                    if x not in seen:
                        seen.add(x)
                        if x >= self.T:
                            st.append(x)
        return seen

    def nullable(self):
        nul = set()
        ch = True
        while ch:
            ch = False
            for l, r in self.rules:
                if l not in nul and all(x in nul for x in r):
                    nul.add(l)
                    ch = True
        return nul

    def reduce(self, keep_terms=False):
        """Drop useless rules and symbols; returns None if the language is empty."""
        prod = self.productive()
        if self.start not in prod:
            return None
        keep = [i for i, (l, r) in enumerate(self.rules) if l in prod and all(x in prod for x in r)]
        g = Grammar(self.T, self.N, [self.rules[i] for i in keep], self.start,
                    [self.rprec[i] for i in keep], self.tprec, self.err, self.terms, self.nts)
        rea = g.reachable()
        keep = [i for i, (l, r) in enumerate(g.rules) if l in rea]
        used = set(x for i in keep for x in g.rules[i][1])
        tmap = {0: 0}
        terms = ['$end']
        for t in range(1, self.T):
            if keep_terms or t in used or t in g.tprec or t == self.err:
                tmap[t] = len(terms)
                terms.append(self.terms[t])
        T = len(terms)
        nts = []
        nmap = {}
        for n in range(self.T, self.T + self.N):
            if n in rea or (n == self.err and n in used):
                nmap[n] = T + len(nts)
                nts.append(self.nts[n - self.T])
        m = {**tmap, **nmap}
        return Grammar(T, len(nts), [(m[g.rules[i][0]], tuple(m[x] for x in g.rules[i][1])) for i in keep],
                       m[self.start], [m.get(g.rprec[i]) if g.rprec[i] is not None else None for i in keep],
                       {m[t]: v for t, v in self.tprec.items()}, m.get(self.err), terms, nts)

    def loopy(self):
        """Cyclic or hidden-left-recursive: parsers may loop without consuming input."""
        nul = self.nullable()
        e1, e2 = {}, set()
        for l, r in self.rules:
            for k, x in enumerate(r):
                if x >= self.T:
                    rest = r[k + 1:]
                    e1.setdefault(l, set()).add(x)
                    if k > 0 or all(y in nul for y in rest):
                        e2.add((l, x))
                if x not in nul:
                    break
        reach = {}
        for a in e1:
            seen = set()
            st = list(e1[a])
            while st:
                y = st.pop()
                if y not in seen:
                    seen.add(y)
                    st.extend(e1.get(y, ()))
            reach[a] = seen
        return any(a == b or a in reach.get(b, ()) for a, b in e2)

    # ---- sentences
    def min_depth(self):
        """Minimal derivation height of each nonterminal, for terminating random derivations."""
        INF = 10 ** 9
        h = {t: 0 for t in range(self.T)}
        for n in range(self.T, self.T + self.N):
            h[n] = INF
        best = {}
        ch = True
        while ch:
            ch = False
            for i, (l, r) in enumerate(self.rules):
                v = 1 + max([h[x] for x in r], default=0)
                if v < h[l]:
                    h[l] = v
                    best[l] = i
                    ch = True
        self._h, self._best = h, best
        return h

    def sentence(self, rng, budget=30, exclude_err=True):
        """A random sentence (list of terminals), by random leftmost expansion under a size budget."""
        if not hasattr(self, '_best'):
            self.min_depth()
        by = self.by_lhs()
        out = []
        st = [self.start]
        steps = 0
        while st:
            x = st.pop()
            if x < self.T:
                out.append(x)
                continue
            steps += 1
            cand = by[x]
            if exclude_err and self.err is not None:
                c2 = [i for i in cand if self.err not in self.rules[i][1]]
                cand = c2 or cand
            if steps > budget or len(out) + len(st) > budget:
                i = self._best[x]
            else:
                i = rng.choice(cand)
            st.extend(reversed(self.rules[i][1]))
            if len(out) > 20 * budget + 1000:
                return None
        return out


class LALR:
    """LALR(1) automaton by DeRemer/Pennello relations.

    augmented=True adds the byacc style  $accept -> start $end  state; otherwise (lemon) state 0's
    kernel holds the start symbol's rules and the goto on the start symbol is the accept action.
    """

    def __init__(self, g, augmented=True, lemon_err=None):
        self.g = g
        self.augmented = augmented
        self.lemon_err = lemon_err
        self.build()

    def build(self):
        g = self.g
        T = g.T
        rules = g.rules
        by = g.by_lhs()
        self.by = by
        starts = []
        after = []
        rule_of = []
        for i, (l, r) in enumerate(rules):
            starts.append(len(after))
            for d, x in enumerate(r):
                after.append(x)
                rule_of.append(i)
            after.append(-1)
            rule_of.append(i)
        if self.augmented:
            acc = len(after)
            after += [g.start, -1]
            rule_of += [-1, -1]
        self.after, self.starts, self.rule_of = after, starts, rule_of
        # nonterminals reachable at the left edge
        left = {}
        for n in range(T, T + g.N):
            left[n] = set(rules[i][1][0] for i in by.get(n, ()) if rules[i][1] and rules[i][1][0] >= T)
        clos = {}
        for n in left:
            seen = {n}
            st = [n]
            while st:
                for m in left.get(st.pop(), ()):
                    if m not in seen:
                        seen.add(m)
                        st.append(m)
            clos[n] = tuple(sorted(seen))
        if self.augmented:
            k0 = (acc,)
        else:
            k0 = tuple(sorted(starts[i] for i in by.get(g.start, ())))
        kernels = [k0]
        index = {k0: 0}
        shift = []
        self.reds = []
        s = 0
        while s < len(kernels):
            k = kernels[s]
            trans = {}
            red = []
            nts = set()
            for it in k:
                x = after[it]
                if x < 0:
                    red.append(rule_of[it])
                else:
                    trans.setdefault(x, set()).add(it + 1)
                    if x >= T:
                        nts.update(clos[x])
            kset = set(k)
            for n in nts:
                for i in by.get(n, ()):
                    it = starts[i]
                    if it in kset:
                        continue
                    x = after[it]
                    if x < 0:
                        red.append(i)
                    else:
                        trans.setdefault(x, set()).add(it + 1)
            # expand left corner nonterminals of k0 rules too (already covered by closure of their first symbol)
            tr = {}
            for x in sorted(trans):
                kk = tuple(sorted(trans[x]))
                if kk not in index:
                    index[kk] = len(kernels)
                    kernels.append(kk)
                tr[x] = index[kk]
            shift.append(tr)
            self.reds.append(sorted(set(red)))
            s += 1
        self.kernels = kernels
        self.trans = shift
        self.nstates = len(kernels)
        self.closure_nts = clos
        self.lookaheads()

    def lookaheads(self):
        g = self.g
        T = g.T
        trans = self.trans
        nul = g.nullable()
        self.nul = nul
        nt = []
        idx = {}
        for p, tr in enumerate(trans):
            for x, q in tr.items():
                if x >= T and x != self.lemon_err:
                    idx[(p, x)] = len(nt)
                    nt.append((p, x, q))
        n = len(nt)
        F = [0] * n
        reads = [[] for _ in range(n)]
        for i, (p, a, q) in enumerate(nt):
            m = 0
            for x in trans[q]:
                if x < T:
                    m |= 1 << x
                elif x in nul:
                    reads[i].append(idx[(q, x)])
            if p == 0 and a == g.start:
                m |= 1  # end marker
            F[i] = m
        if not self.augmented and (0, g.start) not in idx:
            # lemon: start symbol has no goto; give it a virtual transition
            idx[(0, g.start)] = n
            nt.append((0, g.start, -1))
            F.append(1)
            reads.append([])
            n += 1
        self._digraph(F, reads)
        inc = [[] for _ in range(n)]
        lookback = {}
        for i, (p, a, q) in enumerate(nt):
            for ri in self.by.get(a, ()):
                rhs = g.rules[ri][1]
                s = p
                path = []
                for x in rhs:
                    path.append((s, x))
                    s = trans[s][x]
                lookback.setdefault((s, ri), []).append(i)
                for k in range(len(rhs) - 1, -1, -1):
                    st, x = path[k]
                    if x < T:
                        break
                    if (st, x) in idx:
                        inc[idx[(st, x)]].append(i)
                    if x not in nul:
                        break
        self._digraph(F, inc)
        self.la = []
        for s in range(self.nstates):
            d = {}
            for ri in self.reds[s]:
                if ri < 0:
                    continue
                m = 0
                for i in lookback.get((s, ri), ()):
                    m |= F[i]
                d[ri] = m
            self.la.append(d)
        self.accept_state = trans[0].get(g.start) if self.augmented else None

    @staticmethod
    def _digraph(F, rel):
        n = len(F)
        back = [[] for _ in range(n)]
        for i in range(n):
            for j in rel[i]:
                back[j].append(i)
        work = list(range(n))
        inq = [True] * n
        while work:
            j = work.pop()
            inq[j] = False
            fj = F[j]
            for i in back[j]:
                if F[i] | fj != F[i]:
                    F[i] |= fj
                    if not inq[i]:
                        inq[i] = True
                        work.append(i)

    def items(self, s):
        """All items (rule, dot) of a state; the augmented rule is -1."""
        g = self.g
        T = g.T
        out = set()
        nts = set()
        for it in self.kernels[s]:
            ri = self.rule_of[it]
            if ri < 0:
                out.add((-1, it - (len(self.after) - 2)))
            else:
                out.add((ri, it - self.starts[ri]))
            x = self.after[it]
            if x >= T:
                nts.update(self.closure_nts[x])
        for n in nts:
            for i in self.by.get(n, ()):
                out.add((i, 0))
        return out


def bits(m):
    out = []
    i = 0
    while m:
        if m & 1:
            out.append(i)
        m >>= 1
        i += 1
    return out


class Table:
    """Resolved actions: action[s][t] in ('s', q) ('r', rule) ('a',) ('n',) -- 'n' is a %nonassoc error."""

    def __init__(self):
        self.action = []
        self.sr = 0
        self.rr = 0
        self.ss = 0
        self.conf = []      # (state, kind, terminal, winner, loser rule)
        self.used = set()   # rules with a surviving reduction
        self.nonassoc = []  # (state, terminal)


def byacc_rule_prec(g, i, z=False, u=False):
    if u:
        return None
    if g.rprec[i] is not None:
        return g.tprec.get(g.rprec[i])
    p = None
    seen = False
    for x in g.rules[i][1]:
        if x < g.T:
            if z:
                if not seen:
                    p = g.tprec.get(x)
                    seen = p is not None
            else:
                p = g.tprec.get(x)
    return p


def byacc_table(a, u=False, z=False):
    """Resolve conflicts as byacc documents it."""
    g = a.g
    t = Table()
    rp = [byacc_rule_prec(g, i, z, u) for i in range(len(g.rules))]
    tp = {} if u else g.tprec
    for s in range(a.nstates):
        act = {}
        cand = {}
        for x, q in a.trans[s].items():
            if x < g.T:
                cand.setdefault(x, []).append(('s', q))
        if s == a.accept_state:
            cand.setdefault(0, []).append(('a',))
        for ri in sorted(a.la[s]):
            for x in bits(a.la[s][ri]):
                cand.setdefault(x, []).append(('r', ri))
        for x in sorted(cand):
            lst = cand[x]
            pref = lst[0]
            dead = False
            for c in lst[1:]:
                if pref == ('a',):
                    t.sr += 1
                    t.conf.append((s, 'sr', x, pref, c[1]))
                elif pref[0] == 's' :
                    p1, p2 = tp.get(x), rp[c[1]]
                    if p1 and p2:
                        if p1[0] < p2[0]:
                            pref = c
                            dead = False
                        elif p1[0] > p2[0]:
                            pass
                        elif p1[1] == 'L':
                            pref = c
                            dead = False
                        elif p1[1] == 'R':
                            pass
                        else:
                            dead = True
                    else:
                        t.sr += 1
                        t.conf.append((s, 'sr', x, pref, c[1]))
                else:
                    done = False
                    if z:
                        p1, p2 = rp[pref[1]], rp[c[1]]
                        if p1 and p2 and p1[0] != p2[0]:
                            done = True
                            if p1[0] < p2[0]:
                                pref = c
                    if not done:
                        t.rr += 1
                        t.conf.append((s, 'rr', x, pref, c[1]))
            if dead:
                act[x] = ('n',)
                t.nonassoc.append((s, x))
            else:
                act[x] = pref
                if pref[0] == 'r':
                    t.used.add(pref[1])
        t.action.append(act)
    return t


def byacc_quirk(a, t):
    """The table with %nonassoc errors hidden where a state's only remaining action is one reduction
    (known finding B02: byacc makes that reduction the default).  None if no cell changes."""
    q = Table()
    ch = False
    for s, act in enumerate(t.action):
        live = set(x for x in act.values() if x[0] != 'n')
        dead = [x for x, v in act.items() if v[0] == 'n']
        # reductions kept only beside a suppressed action still count for their own lookaheads
        if dead and len(live) == 1 and next(iter(live))[0] == 'r':
            act = dict(act)
            for x in dead:
                act[x] = next(iter(live))
            ch = True
        q.action.append(act)
    return q if ch else None


def lemon_rule_prec(g, i, z=False, u=False, multi=None):
    if u:
        return None
    if g.rprec[i] is not None:
        return g.tprec.get(g.rprec[i])
    p = None
    if z:
        for x in reversed(g.rules[i][1]):
            if x < g.T:
                return g.tprec.get(x)
        return None
    for x in g.rules[i][1]:
        if x < g.T:
            if x in g.tprec:
                return g.tprec[x]
    return p


def lemon_table(a, u=False, z=False):
    g = a.g
    t = Table()
    rp = [lemon_rule_prec(g, i, z, u) for i in range(len(g.rules))]
    tp = {} if u else g.tprec
    for s in range(a.nstates):
        act = {}
        cand = {}
        for x, q in a.trans[s].items():
            if x < g.T:
                cand.setdefault(x, []).append(['s', q])
        for ri in sorted(a.la[s]):
            for x in bits(a.la[s][ri]):
                cand.setdefault(x, []).append(['r', ri])
        for x in sorted(cand):
            lst = cand[x]
            st = [c[0] for c in lst]        # 's' 'r' 'x' (dropped) 'e' (error)
            for i in range(len(lst)):
                for j in range(i + 1, len(lst)):
                    if st[i] == 's' and st[j] == 'r':
                        p1, p2 = tp.get(x), rp[lst[j][1]]
                        if not p1 or not p2:
                            st[j] = 'x'
                            t.sr += 1
                            t.conf.append((s, 'sr', x, tuple(lst[i]), lst[j][1]))
                        elif p1[0] > p2[0]:
                            st[j] = 'x'
                        elif p1[0] < p2[0]:
                            st[i] = 'x'
                        elif p1[1] == 'R':
                            st[j] = 'x'
                        elif p1[1] == 'L':
                            st[i] = 'x'
                        else:
                            st[i] = 'e'
                            st[j] = 'x'
                    elif st[i] == 'e' and st[j] == 'r':
                        p1, p2 = tp.get(x), rp[lst[j][1]]
                        if not p2:
                            st[j] = 'x'
                            t.sr += 1
                            t.conf.append((s, 'sr', x, ('n',), lst[j][1]))
                        elif p1[0] < p2[0]:
                            st[i] = 'x'
                        else:
                            st[j] = 'x'
                    elif st[i] == 'r' and st[j] == 'r':
                        p1, p2 = rp[lst[i][1]], rp[lst[j][1]]
                        if not p1 or not p2 or p1[0] == p2[0]:
                            st[j] = 'x'
                            t.rr += 1
                            t.conf.append((s, 'rr', x, tuple(lst[i]), lst[j][1]))
                        elif p1[0] > p2[0]:
                            st[j] = 'x'
                        else:
                            st[i] = 'x'
            for c, k in zip(lst, st):
                if k == 'e':
                    act[x] = ('n',)
                    t.nonassoc.append((s, x))
                elif k in 'sr':
                    assert x not in act or act[x] == ('n',), (s, x)
                    act[x] = tuple(c)
                    if k == 'r':
                        t.used.add(c[1])
        t.action.append(act)
    return t


class ParseResult:
    __slots__ = ('ok', 'reds', 'pos', 'maxdepth')

    def __init__(self, ok, reds, pos, maxdepth):
        self.ok, self.reds, self.pos, self.maxdepth = ok, reds, pos, maxdepth


def run(a, t, tokens, limit=200000):
    """Plain LR parse; returns accepted?, reductions as (rule, tokens consumed), error position.

    Returns None when it does not terminate within the limit (cyclic grammars)."""
    g = a.g
    st = [0]
    pos = 0
    reds = []
    n = len(tokens)
    md = 1
    steps = 0
    while True:
        steps += 1
        if steps > limit:
            return None
        tok = tokens[pos] if pos < n else 0
        ac = t.action[st[-1]].get(tok)
        if ac is None or ac[0] == 'n':
            return ParseResult(False, reds, pos, md)
        if ac[0] == 's':
            st.append(ac[1])
            pos += 1
            md = max(md, len(st))
        elif ac[0] == 'a':
            return ParseResult(True, reds, pos, md)
        else:
            l, r = g.rules[ac[1]]
            if r:
                del st[-len(r):]
            reds.append((ac[1], pos))
            if not a.augmented and l == g.start and len(st) == 1:
                return ParseResult(True, reds, pos, md)
            st.append(a.trans[st[-1]][l])
            md = max(md, len(st))


# ---------------------------------------------------------------- Earley, as an independent oracle
def earley(g, tokens):
    """(is a sentence, length of the longest viable prefix).  The grammar must be reduced."""
    by = g.by_lhs()
    nul = g.nullable()
    n = len(tokens)
    sets = []
    cur = {}
    S0 = [(i, 0, 0) for i in by.get(g.start, ())]
    seed = S0
    longest = 0
    waiting = []   # per set: symbol -> list of items waiting
    for k in range(n + 1):
        items = set(seed)
        work = list(items)
        wait = {}
        nxt = []
        done_here = set()
        tok = tokens[k] if k < n else None
        predicted = set()
        while work:
            it = work.pop()
            ri, d, org = it
            rhs = g.rules[ri][1]
            if d < len(rhs):
                x = rhs[d]
                if x < g.T:
                    if x == tok:
                        nxt.append((ri, d + 1, org))
                else:
                    wait.setdefault(x, []).append(it)
                    if x not in predicted:
                        predicted.add(x)
                        for j in by.get(x, ()):
                            ni = (j, 0, k)
                            if ni not in items:
                                items.add(ni)
                                work.append(ni)
                    if x in nul:
                        ni = (ri, d + 1, org)
                        if ni not in items:
                            items.add(ni)
                            work.append(ni)
            else:
                l = g.rules[ri][0]
                src = wait if org == k else waiting[org]
                for (pj, pd, po) in list(src.get(l, ())):
                    ni = (pj, pd + 1, po)
                    if ni not in items:
                        items.add(ni)
                        work.append(ni)
        waiting.append(wait)
        if k == n:
            ok = any(g.rules[ri][0] == g.start and d == len(g.rules[ri][1]) and org == 0 for ri, d, org in items)
            return ok, n
        if not nxt:
            return False, k
        seed = nxt
    return False, n
