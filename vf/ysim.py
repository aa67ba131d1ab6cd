"""Model of a byacc parser run: LALR driver with default reductions, POSIX error recovery, values, locations, destructors.

Produces the same event text as the drivers written by by.emit_full."""


import re
SPLIT = re.compile(r'[,@~:]')


class Loop(Exception):
    pass


class Unknown:
    """A value the model does not determine (compares equal to anything)."""

    def __repr__(self):
        return '?'


UNK = Unknown()
EMPTY = -2


def defred(t, a, err):
    """byacc's default reductions: no shift left in the state and a single rule among the reductions."""
    out = []
    for s in range(a.nstates):
        rule = None
        cnt = 0
        ok = True
        for x, ac in t.action[s].items():
            if ac[0] == 's':
                ok = False
                break
            if ac[0] == 'r':
                if rule is not None and ac[1] != rule:
                    ok = False
                    break
                rule = ac[1]
                if x != err:
                    cnt += 1
        out.append(rule if ok and rule is not None and cnt else None)
    return out


class Trace:
    """The lines a parser prints with yydebug set (numbers and names from the caller)."""

    def __init__(self, bt, prefix, num, tok, rule, sym, tos=False):
        self.bt, self.p, self.num, self.tok, self.rule, self.sym, self.tos = bt, prefix, num, tok, rule, sym, tos

    def line(self, depth, text, trial=False):
        if not self.bt:
            return '|%sdebug: %s' % (self.p, text)
        return '|%sdebug%s[%d]: %s' % (self.p, '(trial)' if trial else '', depth, text)

    def start(self):
        return ['|%sdebug[<# of symbols on state stack>]' % self.p] if self.bt else []

    def grow(self, n):
        return ['|%sdebug: stack size increased to %d' % (self.p, n)]

    def read(self, depth, s, x, v=None, final=False, trial=False):
        n, name = self.tok(x)
        t = 'state %d, %s %d (%s)' % (self.num[s], 'reading token' if self.bt else 'reading', n, name)
        if self.tos and not final and not trial:
            t += ' <%s=%s>' % (name, v)
        return self.line(depth, t, trial)

    def shift(self, depth, s, q, trial=False):
        return self.line(depth, 'state %d, shifting to state %d' % (self.num[s], self.num[q]), trial)

    def reduce(self, depth, s, i, args=(), trial=False):
        t = 'state %d, reducing by rule %d (%s)' % ((self.num[s],) + self.rule(i))
        if self.tos and args and not trial:
            t += '<%s>' % ', '.join('%s=%s' % (self.sym(x), v) for x, v in args)
        return self.line(depth, t, trial)

    def after(self, depth, s, q, v=None, x=None, final=False, trial=False):
        t = 'after reduction, '
        if self.tos and not trial:
            t += 'result is <%s=%s>, ' % (self.sym(x), v)
        return self.line(depth, t + 'shifting from state %d to %sstate %d' % (self.num[s], 'final ' if final and self.bt else '', self.num[q]), trial)

    def eshift(self, depth, s, q):
        return self.line(depth, 'state %d, error recovery shifting to state %d' % (self.num[s], self.num[q]))

    def epop(self, depth, s):
        return self.line(depth, 'error recovery discarding state %d' % self.num[s])

    def edrop(self, depth, s, x):
        return self.line(depth, 'state %d, error recovery %s token %d (%s)' % ((self.num[s], 'discarding' if self.bt else 'discards') + self.tok(x)))


class YSim:
    def __init__(self, a, t, spec, df=None):
        """spec: see by.Full - silent, special, dest, loc, below, mid, zero."""
        self.a, self.t, self.g = a, t, a.g
        self.sp = spec
        self.df = df if df is not None else defred(t, a, a.g.err)
        self.acc = [None] * a.nstates       # accessing symbol
        for s in range(a.nstates):
            for x, q in a.trans[s].items():
                self.acc[q] = x
        self.bound = None       # (initial size, YYMAXDEPTH, result of an overflow, keeps its stack between calls)
        self.cap = 0
        self.peak = 0
        self.tr = None          # Trace

    def run(self, toks, limit=20000, seen=None):
        """seen: the real parser's events, consulted only for failed allocations (m)."""
        sp, g, a, act = self.sp, self.g, self.a, self.t.action
        ev = []
        st, vs, ls = [0], [UNK], [(UNK, UNK)]
        n = len(toks)
        pos = 0
        char = EMPTY
        lval, lloc = UNK, (UNK, UNK)
        errflag = 0
        nerrs = 0
        node = 0
        fired = {}
        err1 = (0, 0)
        dest = sp.dest
        silent, special = sp.silent, sp.special
        steps = 0

        def destroy(sym, val, loc):
            d = dest.get(sym)
            if d is not None:
                ev.append('d%s:%s%s' % (d, val, '@%s~%s' % loc if sp.loc and d[0] == 'L' else ''))

        def finish(res):
            if dest:
                if char not in (EMPTY, 0):
                    destroy(char, lval, lloc)
                for i in range(1, len(st)):
                    destroy(self.acc[st[i]], vs[i], ls[i])
            ev.append('=%d' % res)
            return ev, nerrs
        state = 0
        mode = 'loop'
        rule = None
        bound = self.bound
        self.peak = 1
        self.hazard = False     # an empty rule reduced on a full stack with locations
        tr = self.tr
        if tr:
            ev += tr.start()
        if sp.initial:
            ev.append('I')

        def full():
            n = len(st)
            if n >= self.peak:
                self.peak = n + 1
            if bound is None or n < self.cap:
                return False
            if self.cap >= bound[1] and self.cap:
                return True
            if seen is not None and len(ev) < len(seen) and seen[len(ev)] == 'm':
                ev.append('m')
                return True
            self.cap = min(2 * self.cap, bound[1]) if self.cap else bound[0]
            if tr:
                ev.extend(tr.grow(self.cap))
            return False

        def over():
            ev.append('?')
            return finish(bound[2])
        if bound is not None:
            if not bound[3]:
                self.cap = 0
            st.pop()
            if self.cap == 0 and full():
                return over()
            st.append(0)
        while True:
            steps += 1
            if steps > limit:
                raise Loop()
            if mode == 'loop':
                r = self.df[state]
                if r is not None:
                    rule, mode = r, 'reduce'
                    continue
                if char == EMPTY:
                    pos += 1
                    ev.append('l')
                    char = toks[pos - 1] if pos <= n else 0
                    lval, lloc = pos, (pos, pos)
                    if tr:
                        ev.append(tr.read(len(st) - 1, state, char, lval))
                ac = act[state].get(char)
                if ac is not None and ac[0] == 's':
                    if tr:
                        ev.append(tr.shift(len(st) - 1, state, ac[1]))
                    if full():
                        return over()
                    state = ac[1]
                    st.append(state)
                    vs.append(lval)
                    ls.append(lloc)
                    char = EMPTY
                    if errflag > 0:
                        errflag -= 1
                    continue
                if ac is not None and ac[0] == 'r':
                    rule, mode = ac[1], 'reduce'
                    continue
                if errflag:
                    mode = 'recover'
                    continue
                ev.append('e' + ('@%s' % lloc[0] if sp.loc else ''))
                err1 = lloc
                nerrs += 1
                mode = 'recover'
            elif mode == 'recover':
                mode = 'loop'
                if errflag < 3:
                    errflag = 3
                    while True:
                        ac = act[st[-1]].get(g.err) if g.err is not None else None
                        if ac is not None and ac[0] == 's':
                            if tr:
                                ev.append(tr.eshift(len(st) - 1, st[-1], ac[1]))
                            if full():
                                return over()
                            state = ac[1]
                            st.append(state)
                            vs.append(lval if sp.tags is None else UNK)
                            ls.append((err1[0], lloc[1]))
                            break
                        if tr:
                            ev.append(tr.epop(len(st) - 1, st[-1]))
                        if len(st) == 1:
                            return finish(1)
                        err1 = ls[-1]
                        destroy(self.acc[st[-1]], vs[-1], ls[-1])
                        st.pop()
                        vs.pop()
                        ls.pop()
                else:
                    if char == 0:
                        return finish(1)
                    if tr:
                        ev.append(tr.edrop(len(st) - 1, state, char))
                    if char != EMPTY:
                        destroy(char, lval, lloc)
                    char = EMPTY
            else:
                i = rule
                l, r = g.rules[i]
                k = len(r)
                if bound is not None and sp.loc and k == 0 and (len(st) == bound[1] or len(st) % bound[0] == 0):
                    self.hazard = True
                args = vs[len(vs) - k:] if k else []
                al = ls[len(ls) - k:] if k else []
                if tr:
                    ev.append(tr.reduce(len(st) - 1, state, i, list(zip([self.acc[q] for q in st[len(st) - k:]], args)) if k else ()))
                v = args[0] if k else 0
                loc = (al[0][0], al[-1][1]) if k else (ls[-1][1], ls[-1][1])
                err1 = al[0] if k else (UNK, UNK)
                what = None
                if i not in silent:
                    m = sp.mid.get(i)
                    if m:
                        shown = list(zip(vs[len(vs) - m:], ls[len(ls) - m:]))
                    else:
                        shown = list(zip(args, al))
                    shown = [x for x in shown]
                    b = sp.below.get(i)
                    if b:
                        for j in b:
                            # $0, $-1, ...
                            p = len(vs) - (m or k) - 1 + j
                            shown.append((vs[p], None) if p > 0 else (UNK, None))
                    txt = 'r%d' % i
                    for x, y in shown:
                        txt += ',%s' % (x,)
                        if sp.loc and y is not None:
                            txt += '@%s~%s' % y
                    if sp.loc:
                        txt += ',@%s~%s' % loc
                    if sp.recovering:
                        txt += ',R%d' % (1 if errflag else 0)
                    ev.append(txt)
                    v = 100001 + node
                    node += 1
                    if i in sp.junk:
                        ev.append(sp.junk[i][1])
                    s = special.get(i)
                    if s:
                        fired[i] = fired.get(i, 0) + 1
                        if fired[i] == s[1]:
                            what = s[0]
                    if what == 'E':
                        ev.append('E')
                        if sp.btpop:
                            if k:
                                del st[-k:], vs[-k:], ls[-k:]
                            state = st[-1]
                        else:
                            nerrs += 1
                        mode = 'recover'
                        continue
                    if what == 'A':
                        ev.append('A')
                        return finish(0)
                    if what == 'B':
                        ev.append('B')
                        return finish(1)
                    if what == 'o':
                        ev.append('o')
                        errflag = 0
                    if what == 'c':
                        ev.append('c')
                        char = EMPTY
                if k:
                    del st[-k:], vs[-k:], ls[-k:]
                state = st[-1]
                if state == 0 and l == g.start and len(st) == 1:
                    state = a.accept_state
                    if tr:
                        ev.append(tr.after(0, 0, state, v, l, True))
                    st.append(state)
                    vs.append(v)
                    ls.append(loc)
                    if char == EMPTY:
                        pos += 1
                        ev.append('l')
                        char = toks[pos - 1] if pos <= n else 0
                        lval, lloc = pos, (pos, pos)
                        if tr:
                            ev.append(tr.read(1, state, char, None, True))
                    if char == 0:
                        return finish(0)
                    mode = 'loop'
                    continue
                if tr:
                    ev.append(tr.after(len(st) - 1, state, a.trans[state][l], v, l))
                if full():
                    return over()
                state = a.trans[state][l]
                st.append(state)
                vs.append(v)
                ls.append(loc)
                mode = 'loop'


def same(model, seen):
    """Index of the first difference between the model's events and the observed ones, or None."""
    for i, m in enumerate(model):
        if i >= len(seen):
            return i
        s = seen[i]
        if m == s:
            continue
        if '?' not in m:
            return i
        pm, ps = SPLIT.split(m), SPLIT.split(s)
        if len(pm) != len(ps) or any(x != y and x != '?' for x, y in zip(pm, ps)):
            return i
    return None if len(seen) == len(model) else len(model)
