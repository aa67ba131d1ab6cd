"""Canonical LR(1) construction merged by core: used only to cross-check vf.lr.LALR (see vf/selftest.py)."""


def lalr_by_merging(g):
    T = g.T
    by = g.by_lhs()
    nul = g.nullable()
    first = {n: 0 for n in range(T, T + g.N)}
    ch = True
    while ch:
        ch = False
        for l, r in g.rules:
            m = 0
            for x in r:
                m |= (1 << x) if x < T else first[x]
                if x not in nul:
                    break
            if m | first[l] != first[l]:
                first[l] |= m
                ch = True

    def first_of(seq, la):
        m = 0
        for x in seq:
            m |= (1 << x) if x < T else first[x]
            if x not in nul:
                return m
        return m | la

    rules = g.rules + [(-1, (g.start,))]
    acc = len(g.rules)

    def closure(kern):
        items = {}
        work = []
        for it, la in kern:
            items[it] = items.get(it, 0) | la
            work.append(it)
        while work:
            it = work.pop()
            ri, d = it
            r = rules[ri][1]
            if d < len(r) and r[d] >= T:
                la = first_of(r[d + 1:], items[it])
                for j in by.get(r[d], ()):
                    o = items.get((j, 0))
                    if o is None or o | la != o:
                        items[(j, 0)] = (o or 0) | la
                        work.append((j, 0))
        return items

    k0 = frozenset({((acc, 0), 1)})
    states = {k0: 0}
    order = [k0]
    merged = {}
    trans = {}
    i = 0
    while i < len(order):
        items = closure(order[i])
        core = frozenset(x for x, _ in order[i])
        red = merged.setdefault(core, {})
        moves = {}
        for (ri, d), la in items.items():
            r = rules[ri][1]
            if d == len(r):
                red[ri] = red.get(ri, 0) | la
            else:
                moves.setdefault(r[d], {})[(ri, d + 1)] = la
        for x, ks in moves.items():
            kk = frozenset(ks.items())
            trans[(core, x)] = frozenset(ks)
            if kk not in states:
                states[kk] = len(order)
                order.append(kk)
        i += 1
        if i > 4000:
            return None, None
    return merged, trans


def compare(a):
    """Raises AssertionError unless the automaton equals the canonical LR(1) one merged by core (None: too large)."""
    g = a.g
    merged, trans = lalr_by_merging(g)
    if merged is None:
        return None
    acc = len(g.rules)

    def item(it):
        r = a.rule_of[it]
        return (acc, it - a.after.index(g.start, len(a.after) - 2)) if r < 0 else (r, it - a.starts[r])
    cores = [frozenset(item(i) for i in k) for k in a.kernels]
    assert len(set(cores)) == len(cores) and set(cores) == set(merged), 'states differ\n' + g.text()
    for s, core in enumerate(cores):
        red = {r: m for r, m in merged[core].items() if r != acc}
        mine = {r: m for r, m in a.la[s].items() if r >= 0}
        assert red == mine, 'lookaheads differ in state %d: %s %s\n%s' % (s, red, mine, g.text())
        for x, q in a.trans[s].items():
            assert trans[(core, x)] == cores[q], 'transition differs'
    return True
