"""Seeded grammar and input generators."""
from .lr import Grammar, LALR, byacc_table, lemon_table, run, bits


def rand_cfg(rng, T, N, R, maxlen=5, peps=0.15, punit=0.15, pnt=0.45):
    """Raw random grammar; symbols 1..T-1 terminals, T.. nonterminals."""
    rules = []
    for n in range(N):
        rules.append([T + n, None])
    while len(rules) < R:
        rules.append([T + rng.randrange(N), None])
    out = []
    seen = set()
    for l, _ in rules:
        for _try in range(5):
            p = rng.random()
            if p < peps:
                k = 0
            elif p < peps + punit:
                k = 1
            else:
                k = 1 + min(int(rng.expovariate(0.6)), maxlen - 1)
            r = []
            for _i in range(k):
                if rng.random() < pnt:
                    r.append(T + rng.randrange(N))
                else:
                    r.append(1 + rng.randrange(T - 1))
            r = tuple(r)
            if (l, r) not in seen and r != (l,):
                seen.add((l, r))
                out.append((l, r))
                break
    rng.shuffle(out)
    st = [i for i, x in enumerate(out) if x[0] == T]
    if st:  # start symbol's first rule first
        i = st[0]
        out[0], out[i] = out[i], out[0]
    return Grammar(T, N, out, T)


def order_start_first(g):
    i = next((i for i, r in enumerate(g.rules) if r[0] == g.start), 0)
    if i:
        g.rules.insert(0, g.rules.pop(i))
        g.rprec.insert(0, g.rprec.pop(i))
    return g


def repair(rng, g, tries=60, mark=0.6):
    """Turn a grammar conflict-free by marking or deleting rules in conflict; None when that fails."""
    g = g.reduce(keep_terms=True)
    if g is None or g.T < 2:
        return None
    for _ in range(tries):
        if not g.rules:
            return None
        a = LALR(g)
        t = byacc_table(a)
        if not t.conf:
            return g.reduce()
        s, kind, x, win, lose = rng.choice(t.conf)
        cand = [lose]
        if win[0] == 'r':
            cand.append(win[1])
        i = rng.choice(cand)
        l, r = g.rules[i]
        rules = list(g.rules)
        rprec = list(g.rprec)
        if rng.random() < mark and len(r) < 12:
            tok = 1 + rng.randrange(g.T - 1)
            pos = len(r) if rng.random() < 0.7 else 0
            nr = (l, r[:pos] + (tok,) + r[pos:])
            if nr in rules:
                del rules[i], rprec[i]
            else:
                rules[i] = nr
        else:
            del rules[i], rprec[i]
        g2 = Grammar(g.T, g.N, rules, g.start, rprec, g.tprec, g.err, g.terms, g.nts).reduce(keep_terms=True)
        if g2 is None or not g2.rules:
            return None
        g = g2
    return None


class B:
    """Symbolic grammar builder: rule strings 'lhs: a b | c ;' (lower case or in the lhs set: nonterminals)."""

    def __init__(self):
        self.rules = []
        self.n = 0

    def add(self, text, pre=''):
        for part in text.split(';'):
            part = part.strip()
            if not part:
                continue
            l, rhs = part.split(':', 1)
            for alt in rhs.split('|'):
                self.rules.append((pre + l.strip(), [x for x in alt.split()]))
        return self

    def grammar(self, start=None):
        nts = []
        for l, _ in self.rules:
            if l not in nts:
                nts.append(l)
        ts = []
        for _, r in self.rules:
            for x in r:
                if x not in nts and x not in ts:
                    ts.append(x)
        T = len(ts) + 1
        ix = {x: i + 1 for i, x in enumerate(ts)}
        ix.update({x: T + i for i, x in enumerate(nts)})
        return Grammar(T, len(nts), [(ix[l], tuple(ix[x] for x in r)) for l, r in self.rules],
                       ix[start or self.rules[0][0]], terms=['$end'] + ts, nts=nts)


def g_text(text):
    return B().add(text).grammar()


def gadgets():
    """Deterministic LALR(1) grammars exercising particular parts of the construction."""
    return [
        's: l EQ r | r ; l: ST r | ID ; r: l',
        's: a B c D | ; a: | a X ; c: c Y | Z',
        's: LP s RP s |',
        's: s LP s RP |',
        's: A s A | B s B | C',
        'e: e P t | e M t | t ; t: t X f | t D f | f ; f: LP e RP | I | M f',
        's: m | u ; m: IF e TH m EL m | X ; u: IF e TH s | IF e TH m EL u ; e: Y',
        'v: o | y | N | S ; o: LC ml RC ; ml: | mm ; mm: p | mm CM p ; p: S CL v ; y: LB vl RB ; vl: | vv ; vv: v | vv CM v',
        's: na nb nc nd E ; na: | A ; nb: | B ; nc: | C ; nd: | D',
        's: a x | b x Z ; x: y x | ; y: W n ; n: | V ; a: A ; b: B',
        's: A b ; b: c ; c: d ; d: f ; f: g | H ; g: G',
        's: l ; l: I | l CM I',
        's: l ; l: I | I CM l',
        's: l SM s | ; l: i | l CM i ; i: I eq ; eq: | EQ I',
        's: A a D | B b D | A b E | B a E ; a: C ; b: C F',
        'p: ds ss ; ds: | ds d ; d: T il SM ; il: I | il CM I ; ss: | ss st ; st: I EQ e SM | BG ss EN | WH e DO st ; e: e P I | I | N',
        's: q Z ; q: n1 n2 n3 A | n1 n2 n3 B ; n1: ; n2: ; n3:',
        's: x y ; x: | x A ; y: B | y B x C',
        's: A x A | B x B | A y B | B y A ; x: Q x | R ; y: Q y | W',
        'r: s ; s: s s2 | ; s2: A m1 B | A C ; m1: D',
        'e: A ar ; ar: ar LB e RB | ar DT I | LP al RP | ; al: | el ; el: e | el CM e',
        's: t s | t ; t: K0 | K1 | K2 | K3 | K4 | K5 | K6 | K7 | K8 | K9',
    ]


def exprs(rng, levels, ops):
    b = B()
    rules = []
    for i in range(levels):
        alts = []
        k = rng.randint(1, ops)
        style = rng.randrange(3)
        for j in range(k):
            op = 'O%d_%d' % (i, j)
            if style == 0:
                alts.append('e%d %s e%d' % (i, op, i + 1))
            elif style == 1:
                alts.append('e%d %s e%d' % (i + 1, op, i))
            else:
                alts.append('e%d %s e%d' % (i + 1, op, i + 1))
        alts.append('e%d' % (i + 1))
        rules.append('e%d: %s' % (i, ' | '.join(alts)))
    rules.append('e%d: LP e0 RP | ID | NEG e%d' % (levels, levels))
    return b.add(';'.join(rules)).grammar()


def keywords(rng, n):
    """Many tokens: crosses the word boundaries of the lookahead sets."""
    b = B()
    names = ['K%d' % i for i in range(n)]
    k = max(2, n // 7)
    rules = ['s: s st | st']
    alts = []
    i = 0
    j = 0
    while i < n:
        m = rng.randint(1, 7)
        grp = names[i:i + m]
        i += m
        rules.append('c%d: %s' % (j, ' | '.join(grp)))
        alts.append('c%d %s' % (j, rng.choice(['', 'SM', 'x%d' % (j % 5)])))
        j += 1
    for q in range(min(5, j)):
        rules.append('x%d: SM | LP s RP SM | y%d SM' % (q, q))
        rules.append('y%d: U%d | U%d y%d' % (q, q, q, q))
    rules.insert(1, 'st: ' + ' | '.join(alts))
    return b.add(';'.join(rules)).grammar()


def longrhs(rng, n):
    parts = []
    rules = []
    for i in range(n):
        p = rng.random()
        if p < 0.6:
            parts.append('T%d' % rng.randint(1, 20))
        elif p < 0.8:
            parts.append('o%d' % (i % 4))
        else:
            parts.append('q%d' % (i % 3))
    rules.append('s: %s | T1 T1 T1 T2' % ' '.join(['Z0'] + parts))
    for i in range(4):
        rules.append('o%d: A%d | A%d B%d' % (i, i, i, i))
    for i in range(3):
        rules.append('q%d: C%d o%d' % (i, i, i))
    return B().add(';'.join(rules)).grammar()


def nullrun(rng):
    """Rules with long runs of symbols that can be empty."""
    n = rng.randint(3, 9)
    rules = []
    for i in range(n):
        k = rng.randrange(6)
        if k == 0:
            rules.append('o%d: | A%d' % (i, i))
        elif k == 1:
            rules.append('o%d: A%d | ' % (i, i))
        elif k == 2:
            rules.append('o%d: | o%d A%d' % (i, i, i))
        elif k == 3:
            rules.append('o%d: p%d; p%d: | A%d p%d' % (i, i, i, i, i))
        elif k == 4:
            rules.append('o%d: | A%d B%d' % (i, i, i))
        else:
            rules.append('o%d: p%d q%d; p%d: | A%d; q%d: | C%d' % (i, i, i, i, i, i, i))
    run = ['o%d' % i for i in range(n)]
    cut = rng.randint(0, n)
    s = rng.choice(['s: %s', 's: S0 %s E0 | S1', 's: %s E0 | S1', 's: s S0 %s E1 | E0', 's: u u1; u: S0 %s | X; u1: E0 | Y', 's: %s w; w: E0 w | ', 's: S0 h E0; h: %s'])
    if rng.random() < 0.4 and 0 < cut < n:
        rules.append('m: ' + ' '.join(run[:cut]))
        s = s.replace('%s', 'm ' + ' '.join(run[cut:]))
    rules.insert(0, s.replace('%s', ' '.join(run)))
    return B().add(';'.join(rules)).grammar()


def nullset(rng):
    """States with many empty rules, told apart by the next token, in any order."""
    n, ctx = rng.randint(3, 9), rng.randint(1, 3)
    alts = []
    toks = rng.sample(range(2 * n), 2 * n)
    for c in range(ctx):
        ids = rng.sample(range(n), rng.randint(2, n))
        rng.shuffle(toks)
        j = 0
        for i in ids:
            for _ in range(rng.choice([1, 1, 2])):
                alts.append('C%d e%d T%d' % (c, i, toks[j % len(toks)]) + rng.choice(['', '', ' e%d' % rng.randrange(n)]))
                j += 1
        if rng.random() < 0.3:
            alts.append('C%d' % c + rng.choice([' N', ' N s', '']))
    rng.shuffle(alts)
    rules = ['e%d: %s' % (i, rng.choice(['', '', '', '| M%d' % i, 'M%d |' % i])) for i in range(n)]
    rng.shuffle(rules)
    if rng.random() < 0.3:
        rules.append('top: s | top s')
    rules.insert(0, 's: ' + ' | '.join(alts))
    if rules[-1].startswith('top'):
        rules.insert(0, rules.pop())
    return B().add(';'.join(rules)).grammar()


def contexts(rng):
    """The same empty rules in several contexts, whose sets of following tokens differ little."""
    n, k, m = rng.randint(2, 7), rng.randint(5, 12), rng.randint(1, 2)
    sets = [set(rng.sample(range(k), rng.randint(2, k - 1)))]
    while len(sets) < n:
        f = set(rng.choice(sets))
        out = [x for x in range(k) if x not in f]
        if out and rng.random() < 0.9:
            f.remove(rng.choice(sorted(f)))
            f.add(rng.choice(out))
        elif len(f) > 2:
            f.remove(rng.choice(sorted(f)))
        sets.append(f)
    use = rng.random() < 0.3
    rules = []
    alts = []
    for i, f in enumerate(sets):
        a = ['a%d' % rng.randrange(m)] if m == 1 or rng.random() < 0.8 else ['a0', 'a1']
        alts.append('X%d %s f%d' % (i, ' '.join(a), i))
        if rng.random() < 0.3:
            alts.append('X%d Q%d G' % (i, i % 2))
        fs = sorted(f)
        if rng.random() < 0.5:
            rng.shuffle(fs)
        rules.append('f%d: %s' % (i, ' | '.join('F%d' % x + rng.choice(['', '', ' F0', ' H']) for x in fs)))
    body = [rng.choice(['Z%d', 'Z%d a%d' if use else 'Z%d Y', 'Z%d Z%d', 'a%d Z%d']) for _ in range(m)]
    rules.insert(0, 's: ' + ' | '.join(alts))
    if rng.random() < 0.4:
        rules.insert(0, 'top: s | top s' if rng.random() < 0.5 else 'top: s E')
    rules += ['a%d: | %s' % (i, x.replace('%d', str(i))) for i, x in enumerate(body)]
    return B().add(';'.join(rules)).grammar()


def sized(rng, what, want):
    """A grammar with exactly so many symbols (what = 0), or so many lemon actions (1), or about so many table entries."""
    b = B()
    n = want - 4 if what == 0 else want // rng.randint(5, 6)
    b.add('s: s st | st')
    i = 0
    while True:
        b.rules.append(('st', ['K%d' % i] + rng.choice([[], ['E0'], ['E%d' % rng.randint(0, i // 4)], ['E1', 'x']])))
        i += 1
        if i < 3:
            continue
        if what and rng.random() < 0.6:
            b.rules.append(('x', ['K%d' % (i - 1)]))
        if i == 3:
            b.rules.append(('x', ['K0', 'K2']))
        g = b.grammar()
        if what == 0:
            if g.T + g.N >= want:
                return g
        elif i >= n // 3:
            a = LALR(g, augmented=False)
            m = a.nstates + 2 * len(g.rules) + 3
            if m >= want or what == 2 and i > n:
                return g


def merge(rng, gs, seq=False):
    """One grammar from several: alternatives guarded by distinct tokens, or a bracketed sequence."""
    b = B()
    alts = []
    for k, g in enumerate(gs):
        nm = lambda x: ('g%d%s' % (k, g.name(x))) if x >= g.T else g.terms[x]
        alts.append((k, nm(g.start)))
        for l, r in g.rules:
            b.rules.append((nm(l), [nm(x) for x in r]))
    if seq:
        b.rules.insert(0, ('s_', sum([['BB%d' % k, n, 'EE%d' % k] for k, n in alts], [])))
        b.rules.insert(1, ('s_', ['BB%d' % alts[0][0]] + [alts[-1][1], 'FF']) if False else ('s_', ['EE0']))
    else:
        for j, (k, n) in enumerate(alts):
            b.rules.insert(j, ('s_', ['BB%d' % k, n] + (['EE%d' % k] if rng.random() < 0.5 else [])))
    return b.grammar('s_')


def conflict_free(rng, cls):
    """A conflict-free grammar of a size class; always returns one."""
    for _ in range(60):
        g = None
        if cls == 'tiny':
            g = repair(rng, rand_cfg(rng, rng.randint(2, 4), rng.randint(1, 3), rng.randint(1, 7)))
        elif cls == 'small':
            g = repair(rng, rand_cfg(rng, rng.randint(3, 9), rng.randint(2, 6), rng.randint(6, 22)), mark=0.75)
        elif cls == 'null':
            g = repair(rng, rand_cfg(rng, rng.randint(3, 7), rng.randint(3, 8), rng.randint(8, 22), peps=0.4, pnt=0.65), mark=0.75)
        elif cls == 'unit':
            g = repair(rng, rand_cfg(rng, rng.randint(3, 8), rng.randint(3, 8), rng.randint(8, 24), peps=0.08, punit=0.5))
        elif cls == 'medium':
            g = repair(rng, rand_cfg(rng, rng.randint(6, 20), rng.randint(5, 14), rng.randint(20, 50)), tries=120, mark=0.8)
        elif cls == 'large':
            gs = [conflict_free(rng, rng.choice(['small', 'null', 'unit', 'gadget', 'medium'])) for _ in range(rng.randint(4, 9))]
            g = merge(rng, gs, rng.random() < 0.3)
        elif cls == 'gadget':
            g = g_text(rng.choice(gadgets()))
        elif cls == 'mix':
            gs = [g_text(rng.choice(gadgets())) for _ in range(rng.randint(2, 4))]
            gs.append(conflict_free(rng, 'small'))
            g = merge(rng, gs)
        elif cls == 'expr':
            g = exprs(rng, rng.randint(1, 8), rng.randint(1, 5))
        elif cls == 'kw':
            g = keywords(rng, rng.choice([20, 29, 30, 31, 32, 33, 60, 62, 64, 65, 90, 127, 130, 200, 250, 260]))
        elif cls == 'nullrun':
            g = nullrun(rng)
        elif cls == 'ctx':
            g = contexts(rng)
        elif cls == 'nullset':
            g = nullset(rng)
        elif cls == 'sized':
            g = sized(rng, rng.choice([0, 1, 1]), rng.choice([126, 127, 128, 129, 252, 253, 254, 255, 256, 257, 258]))
        elif cls != 'long':
            raise ValueError(cls)
        elif cls == 'long':
            g = longrhs(rng, rng.choice([6, 14, 15, 16, 30, 64, 90, 126, 127, 128, 140, 200]))
        if g is None:
            continue
        if cls in ('gadget', 'mix', 'expr', 'kw', 'long', 'large', 'nullrun', 'nullset', 'sized', 'ctx'):
            g = g.reduce()
            if g is None:
                continue
            if byacc_table(LALR(g)).conf:
                g = repair(rng, g)
                if g is None:
                    continue
        if len(g.rules) < 1:
            continue
        if cls != 'tiny' and len(g.rules) < 3:
            continue
        return order_start_first(g)
    return order_start_first(g_text('s: A s B |'))


CLASSES = ['tiny', 'small', 'null', 'unit', 'medium', 'gadget', 'mix', 'expr', 'kw', 'long', 'large', 'nullrun', 'nullset', 'sized', 'ctx']


def prec_decls(rng, g, p_tok=0.6, p_rule=0.15, assocs='LRN'):
    """Random precedence levels for the terminals and %prec marks for the rules."""
    lv = 0
    ts = [t for t in range(1, g.T) if t != g.err and rng.random() < p_tok]
    rng.shuffle(ts)
    g.tprec = {}
    i = 0
    while i < len(ts):
        k = rng.randint(1, 3)
        lv += 1
        a = rng.choice(assocs)
        for t in ts[i:i + k]:
            g.tprec[t] = (lv, a)
        i += k
    # now and then the mark of a token that has no precedence: the rule has none either
    bare = [t for t in range(1, g.T) if t != g.err and t not in g.tprec]
    g.rprec = [((rng.choice(bare) if bare and rng.random() < 0.25 else rng.choice(ts)) if ts and rng.random() < p_rule else None)
               for _ in g.rules]
    return g


def mid_actions(rng, g, n):
    """Puts up to n actions inside rules: each is an empty rule of its own just before the rule it stands in.
    Returns (grammar, {nonterminal: rule})."""
    cand = [i for i, (l, r) in enumerate(g.rules) if r and len(r) < 10]
    at = {}
    for i in rng.sample(cand, min(n, len(cand))):
        at[i] = rng.randint(0, len(g.rules[i][1]) - 1)
    rules, rprec, nts, midof = [], [], list(g.nts), {}
    for i, (l, r) in enumerate(g.rules):
        if i in at:
            m = g.T + len(nts)
            nts.append('vf_mid%d' % len(nts))
            midof[m] = len(rules)
            rules.append((m, ()))
            rprec.append(None)
            r = r[:at[i]] + (m,) + r[at[i]:]
        rules.append((l, r))
        rprec.append(g.rprec[i])
    return Grammar(g.T, len(nts), rules, g.start, rprec, g.tprec, g.err, list(g.terms), nts), midof


def ambiguous(rng, cls=None, prec=True, assocs='LRN'):
    """A grammar that usually has conflicts."""
    for _ in range(40):
        c = cls or rng.choice(['op', 'op', 'op', 'rand', 'rand', 'null', 'dangling', 'unary', 'mix'])
        if c == 'op':
            n = rng.randint(1, 8)
            alts = ['e O%d e' % i for i in range(n)]
            if rng.random() < 0.5:
                alts += ['NG e']
            if rng.random() < 0.4:
                alts += ['O0 e']
            if rng.random() < 0.3:
                alts += ['e PF']
            if rng.random() < 0.3:
                alts += ['e O0 e CO e', 'e QM e CO e']
            if rng.random() < 0.4:
                alts += ['LP e RP']
            alts += ['ID']
            rng.shuffle(alts)
            g = g_text('s: e ; e: ' + ' | '.join(alts))
        elif c == 'unary':
            n = rng.randint(1, 4)
            alts = ['e op e', 'ID', 'un e']
            g = g_text('s: e ; e: %s ; op: %s ; un: O0 | U' % (' | '.join(alts), ' | '.join('O%d' % i for i in range(n))))
        elif c == 'dangling':
            g = g_text(rng.choice([
                's: IF E s | IF E s EL s | X | WH E s | BG l EN ; l: | l s',
                's: IF E s el | X | s SM s ; el: | EL s',
                's: s s | A | B s |',
                's: a | b ; a: X a | X ; b: X b Y | X',
                's: l1 l2 ; l1: | l1 A ; l2: A | l2 A | l2 B']))
        elif c == 'rand':
            g = rand_cfg(rng, rng.randint(2, 7), rng.randint(1, 5), rng.randint(3, 16))
        elif c == 'null':
            g = rand_cfg(rng, rng.randint(3, 7), rng.randint(2, 6), rng.randint(6, 18), peps=0.3, pnt=0.6)
        else:
            gs = [ambiguous(rng, rng.choice(['op', 'rand', 'dangling', 'unary']), False) for _ in range(rng.randint(2, 4))]
            g = merge(rng, gs)
        g = g.reduce()
        if g is None or not g.rules or len(g.rules) < 2:
            continue
        order_start_first(g)
        if prec and rng.random() < 0.85:
            prec_decls(rng, g, assocs=assocs)
        return g
    return g_text('e: e P e | ID')


# ---------------------------------------------------------------- inputs
def min_strings(g, avoid=None):
    """Shortest terminal string of each symbol."""
    INF = 10 ** 9
    ln = {t: 1 for t in range(g.T)}
    best = {}
    ch = True
    while ch:
        ch = False
        for i, (l, r) in enumerate(g.rules):
            if avoid is not None and avoid in r:
                continue
            v = sum(ln.get(x, INF) for x in r)
            if v < ln.get(l, INF):
                ln[l] = v
                best[l] = i
                ch = True
    memo = {}

    def s(x):
        if x < g.T:
            return [x]
        if x not in memo:
            memo[x] = None
            out = []
            for y in g.rules[best[x]][1]:
                out += s(y)
            memo[x] = out
        return memo[x]
    return s, ln


class Inputs:
    def __init__(self, g, a, rng):
        self.g, self.a, self.rng = g, a, rng
        self.s, self.ln = min_strings(g, g.err)
        # shortest symbol path to each state
        self.path = {0: []}
        st = [0]
        while st:
            nx = []
            for p in st:
                for x, q in a.trans[p].items():
                    if q not in self.path and x != g.err and x in self.ln:
                        self.path[q] = self.path[p] + [(x, q)]
                        nx.append(q)
            st = nx

    def prefix(self, state):
        out = []
        for x, q in self.path[state]:
            out += self.s(x)
        return out

    def complete(self, stack, limit=60):
        """Tokens that complete the viable prefix on the stack (states) to a sentence, or None."""
        g, a, rng = self.g, self.a, self.rng
        stack = list(stack)
        out = []
        for step in range(limit):
            if a.augmented and stack[-1] == a.accept_state and len(stack) == 2:
                return out
            best = None
            cand = []
            for it in a.kernels[stack[-1]]:
                ri = a.rule_of[it]
                if ri < 0:
                    if it == len(a.after) - 2 or not a.augmented:
                        cand.append((sum(self.ln.get(x, 10 ** 9) for x in (g.start,)), -9, 0, None))
                    continue
                d = it - a.starts[ri]
                r = g.rules[ri][1]
                if g.err is not None and g.err in r[d:]:
                    continue
                c = sum(self.ln.get(x, 10 ** 9) for x in r[d:])
                cand.append((c, -d, rng.random(), ri))
            if not cand:
                return None
            if step < 6 and rng.random() < 0.3:
                c = rng.choice(cand)
            else:
                c = min(cand)
            if c[3] is None:
                return out + self.s(g.start)
            ri, d = c[3], -c[1]
            r = g.rules[ri][1]
            for x in r[d:]:
                out += self.s(x)
            if d == 0 and not r:
                return None
            del stack[len(stack) - d:]
            nx = a.trans[stack[-1]].get(g.rules[ri][0])
            if nx is None:
                if not a.augmented and len(stack) == 1 and g.rules[ri][0] == g.start:
                    return out
                return None
            stack.append(nx)
        return None

    def stack_after(self, t, toks):
        """State stack after shifting toks, or None."""
        st = [0]
        g, a = self.g, self.a
        for tok in toks:
            n = 0
            while True:
                n += 1
                ac = t.action[st[-1]].get(tok)
                if ac is None or ac[0] in 'na' or n > 5000:
                    return None
                if ac[0] == 's':
                    st.append(ac[1])
                    break
                l, r = g.rules[ac[1]]
                if r:
                    del st[-len(r):]
                if l not in a.trans[st[-1]]:
                    return None
                st.append(a.trans[st[-1]][l])
        return st

    def table_cover(self, t, maxn=400):
        """Every reachable state with every terminal as lookahead (sampled down to maxn), completed to sentences."""
        g, a, rng = self.g, self.a, self.rng
        pairs = []
        for s in self.path:
            ts = list(range(0, g.T))
            if g.err is not None and g.err < g.T:
                ts.remove(g.err)
            for x in ts:
                pairs.append((s, x))
        if len(pairs) > maxn:
            good = [p for p in pairs if p[1] in t.action[p[0]]]
            rng.shuffle(good)
            good = good[:maxn * 2 // 3]
            rest = rng.sample(pairs, maxn - len(good))
            pairs = good + rest
        out = []
        for s, x in pairs:
            pre = self.prefix(s)
            if x == 0:
                out.append(pre)
                continue
            toks = pre + [x]
            st = self.stack_after(t, toks)
            if st is not None:
                c = self.complete(st)
                if c is not None:
                    toks = toks + c
            out.append(toks)
        return out

    def mutate(self, toks, T):
        rng = self.rng
        toks = list(toks)
        for _ in range(rng.randint(1, 2)):
            op = rng.randrange(5)
            i = rng.randrange(len(toks) + 1)
            if op == 0:
                toks.insert(i, rng.randrange(1, T))
            elif op == 1 and toks:
                del toks[min(i, len(toks) - 1)]
            elif op == 2 and toks:
                toks[min(i, len(toks) - 1)] = rng.randrange(1, T)
            elif op == 3 and len(toks) > 1:
                i = rng.randrange(len(toks) - 1)
                toks[i], toks[i + 1] = toks[i + 1], toks[i]
            elif op == 4:
                toks = toks[:i]
        return toks

    def many(self, t, n_sent=30, n_mut=40, n_rand=10, cover=300, budget=25, maxtok=400):
        g, rng = self.g, self.rng
        out = [[]]
        for _ in range(n_sent):
            s = g.sentence(rng, rng.choice([3, 8, budget, budget * 3]))
            if s is not None and len(s) <= maxtok:
                out.append(s)
        base = list(out)
        if g.T > 1:
            for _ in range(n_mut):
                out.append([x for x in self.mutate(rng.choice(base), g.T) if x != g.err])
            for _ in range(n_rand):
                out.append([x for x in (rng.randrange(1, g.T) for _ in range(rng.randint(1, 8))) if x != g.err])
        if cover:
            out += [x for x in self.table_cover(t, cover) if len(x) <= maxtok * 3]
        seen = set()
        res = []
        for x in out:
            k = tuple(x)
            if k not in seen:
                seen.add(k)
                res.append(list(x))
        return res


ERR_TEMPLATES = [
    'p: | p st ; st: e SM | error SM | LB p RB | LB error RB | IF LP e RP st ; e: e PL t | t ; t: ID | LP e RP | LP error RP',
    's: ls ; ls: ls CM it | it ; it: ID | error | LP ls RP',
    's: | s line ; line: NL | e NL | error NL ; e: N | e PL N | MI e',
    's: b ; b: BE ds EN ; ds: d | ds SM d ; d: VA ID | error | b | VA error',
    's: A B C | A error C | A error D ; ',
    's: x s | ; x: A y Z | error Z | A error Z ; y: B | B y | C error C',
    's: f ; f: ID LP ar RP | f error ; ar: | as ; as: as CM e | e | error CM e ; e: N | ID',
    's: u | error ; u: A u B | C | D error E',
    's: t ; t: t A | error | B',
    's: a error SM | error PT ; a: X | X Y',
    's: l ; l: | l st ; st: hd error SM | hd ID SM | error SM ; hd: KW | KW hd',
    's: x error y | error z ; x: A | B C ; y: SM | C SM ; z: PT | A PT',
    's: e EQ e | error EQ e ; e: e PL N | N | LP error RP | LP e RP',
]


def with_error(rng, g, n=None):
    """Add an error terminal and error rules."""
    E = g.T
    sh = lambda x: x + 1 if x >= g.T else x
    rules = [(sh(l), tuple(sh(x) for x in r)) for l, r in g.rules]
    T = g.T + 1
    N = g.N
    nts = list(g.nts)
    rprec = list(g.rprec)
    term = lambda: rng.randrange(1, g.T) if g.T > 1 else E
    for _ in range(n if n is not None else rng.randint(1, 4)):
        A = rng.randrange(T, T + g.N)
        k = rng.randrange(10)
        if k == 8:
            # a nonterminal that only the error token can follow
            w = T + N
            N += 1
            nts.append('w%d' % N)
            rules.append((w, (term(),) if rng.random() < 0.6 else (term(), term())))
            rprec.append(None)
            r = (w, E) + ((term(),) if rng.random() < 0.6 else ())
        elif k == 9:
            r = (rng.randrange(T, T + g.N), E, term())
        elif k <= 1:
            r = (E,)
        elif k <= 3:
            r = (E, term())
        elif k == 4:
            r = (term(), E, term())
        elif k == 5:
            r = (A, E)
        elif k == 6:
            r = (E, rng.randrange(T, T + g.N))
        else:
            r = (term(), E)
        if (A, r) not in rules:
            rules.append((A, r))
            rprec.append(None)
    gg = Grammar(T, N, rules, sh(g.start), rprec, g.tprec, E, list(g.terms) + ['error'], nts)
    return gg


def error_template(rng):
    """A hand-written grammar with error rules."""
    txt = rng.choice(ERR_TEMPLATES)
    g = g_text(txt)
    E = g.terms.index('error')
    g.err = E
    return g


def error_grammar(rng):
    k = rng.random()
    if k < 0.4:
        return error_template(rng)
    for _ in range(50):
        if k < 0.75:
            g = conflict_free(rng, rng.choice(['tiny', 'small', 'medium', 'expr', 'null', 'gadget', 'kw']))
        else:
            g = ambiguous(rng, assocs='LR')
        g = with_error(rng, g)
        if not g.loopy():
            return g
    return error_template(rng)


def stress_inputs(I, t, rng, n=60, maxtok=60):
    """Sentences damaged in several places."""
    g = I.g
    out = []
    base = [x for x in (g.sentence(rng, rng.choice([4, 10, 25, 50])) for _ in range(n)) if x is not None and len(x) <= maxtok] or [[]]
    ts = [x for x in range(1, g.T) if x != g.err]
    if not ts:
        return [[]]
    for _ in range(n):
        x = list(rng.choice(base))
        if rng.random() < 0.3:
            x += rng.choice(base)
        for _ in range(rng.randint(1, 5)):
            x = [y for y in I.mutate(x, g.T) if y != g.err]
        out.append(x[:maxtok * 2])
    for _ in range(n // 3):
        out.append([rng.choice(ts) for _ in range(rng.randint(1, 14))])
    return out
