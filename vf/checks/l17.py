"""L17: lemon's trace and coverage."""
import random
from .. import env, gen, le, by, lsim, lchk, lreport
from ..lreport import Bad
from . import l08

TECH = 'runtime trace monitor: the trace of generated parsers (ASan/UBSan) compared line by line with a machine built from the report, itself compared with a reference automaton; the parser is run again without tracing'
NOTE = 'Held on the executions observed: every trace line, in its place between the parser\'s actions and callbacks.'
TOOLS = ['lemon-san']
RULE = ('one evaluation = one input traced (all its trace lines compared with the machine, its actions with the run without trace), one coverage entry or one token\'s fallback; '
        'distinct nontrivial = distinct (grammar, declarations, input) traced')
ASSUMES = ['the report of the same run, which is compared with the reference automaton first (lreport.check) unless the grammar has token classes']


def plan(ctx):
    out = [['t', i] for i in range(230 * (8 if ctx.thorough else 1))]
    random.Random(ctx.seed).shuffle(out)
    return out


class Machine:
    """The generated parser as its report describes it; run() yields trace lines (prefixed with |) and marks."""

    def __init__(self, rep, number, g, f, sp):
        self.g, self.f = g, f
        self.rules = {n: (l, r) for n, l, r, _, _ in rep['rules']}
        self.number = number
        self.nact = len(g.rules) - len(f.silent)
        self.err = 'error' if g.err is not None else None
        name = lambda x: sp.sym(x) if x else '$'
        self.name = name
        self.fb = {name(x): name(y) for x, y in f.fallback.items()}
        self.wild = name(f.wild) if f.wild is not None else None
        self.st = []
        for s in rep['states']:
            d = {}
            for x in s['acts']:
                if x['kind'] in ('shift', 'shift-reduce', 'reduce', 'accept', 'error'):
                    d[x['name']] = x
            self.st.append(d)
        self.terms = [n for _, n, _, _, _ in rep['syms']][:g.T - len(f.classes)]
        self.used = set()

    def find(self, out, s, x):
        self.used.add((s, x))
        d = self.st[s]
        while True:
            if x in d:
                return d[x]
            if x in self.fb:
                out.append('|FALLBACK %s => %s' % (x, self.fb[x]))
                x = self.fb[x]
                continue
            if self.wild and self.wild in d and x != '$':
                out.append('|WILDCARD %s => %s' % (x, self.wild))
                return d[self.wild]
            return d.get('{default}') or dict(kind='error')

    def pop(self, out):
        out.append('|Popping %s' % self.stk.pop()[1])

    def clear(self, out):
        while len(self.stk) > 1:
            self.pop(out)

    def overflow(self, out):
        out.append('|Stack Overflow!')
        self.clear(out)
        out.append('O')

    def room(self, out, n):
        """Place for n entries on the stack?"""
        k = 100 if self.f.stack is None else self.f.stack
        if k > 0:
            return n <= k
        while n > self.size:
            out.append('|Stack grows from %d to %d entries.' % (self.size, self.size * 2 + 100))
            self.size = self.size * 2 + 100
        return True

    def shift(self, out, x, a):
        if not self.room(out, len(self.stk) + 1):
            self.overflow(out)
            return
        self.stk.append((self.target(a), x))
        self.say(out, 'Shift', x, a)

    def target(self, a):
        if a['kind'] == 'shift':
            return a['n']
        return a          # a pending reduction or accept

    def say(self, out, tag, x, a):
        if a['kind'] == 'shift':
            out.append("|%s '%s', go to state %d" % (tag, x, a['n']))
        elif a['kind'] == 'accept':
            out.append("|%s '%s', accept" % (tag, x))
        else:
            out.append("|%s '%s', pending reduce %d" % (tag, x, a['n']))

    def run(self, toks):
        out = []
        self.size = 0
        self.stk = [(0, None)]
        if self.f.stack is not None and self.f.stack <= 0:
            self.room(out, 1)
        self.errcnt = -1
        for x in toks:
            self.feed(out, max(x, 0))
        out.append('f')
        while len(self.stk) > 1:
            self.pop(out)
        return out

    def feed(self, out, tk, limit=5000):
        f = self.f
        x = self.name(tk)
        out.append('t')
        s = self.stk[-1][0]
        if isinstance(s, int):
            out.append("|Input '%s' in state %d" % (x, s))
        else:
            out.append("|Input '%s' with pending reduce %d" % (x, s['n']))
        if self.loop(out, tk, x, limit):
            out.append('|Return. Stack=%s]' % ''.join(' [' [i == 0] + y for i, (_, y) in enumerate(self.stk[1:])))

    def loop(self, out, tk, x, limit):
        f = self.f
        hit = False
        while True:
            limit -= 1
            if limit < 0:
                raise lsim.Loop()
            s = self.stk[-1][0]
            a = self.find(out, s, x) if isinstance(s, int) else s
            k = a['kind']
            if k == 'accept':
                self.stk.pop()
                out.append('|Accept!')
                self.errcnt = -1
                out.append('A')
                return False
            if k == 'reduce' or k == 'shift-reduce' and not isinstance(s, int):
                n = a['n']
                l, r = self.rules[n]
                t = 'Reduce %d [%s]%s' % (n, ' '.join((l, '::=') + r), '' if n < self.nact else ' without external action')
                if r:
                    t += ', pop back to state %d' % self.stk[-1 - len(r)][0]
                out.append('|' + t + '.')
                if not r and not self.room(out, len(self.stk) + 1):
                    self.overflow(out)
                    return True
                if self.number[n] not in f.silent:
                    out.append('r%d' % self.number[n])
                if r:
                    del self.stk[-len(r):]
                b = self.st[self.stk[-1][0]].get(l)
                if b is None:
                    raise Bad('state %s has no goto on %s' % (self.stk[-1][0], l))
                self.stk.append((self.target(b), l))
                self.say(out, '... then shift', l, b)
                continue
            if k in ('shift', 'shift-reduce'):
                self.shift(out, x, a)
                self.errcnt -= 1
                return True
            out.append('|Syntax Error!')
            if self.f.noerr:
                out.append('e%d' % tk)
                return True
            if self.err:
                if self.errcnt < 0:
                    out.append('e%d' % tk)
                top = self.stk[-1][1]
                done = False
                if tk and (top == self.err or hit):
                    out.append('|Discard input token %s' % x)
                    done = True
                else:
                    while len(self.stk) > 1 and self.err not in self.st[self.stk[-1][0]]:
                        self.pop(out)
                    if len(self.stk) <= 1 or tk == 0:
                        self.fail(out)
                        return True
                    self.shift(out, self.err, self.st[self.stk[-1][0]][self.err])
                self.errcnt = 3
                hit = True
                if done:
                    return True
                continue
            if self.errcnt <= 0:
                out.append('e%d' % tk)
            self.errcnt = 3
            if tk == 0:
                self.fail(out)
            return True

    def fail(self, out):
        out.append('|Fail!')
        self.clear(out)
        out.append('F')
        self.errcnt = -1


PROMPT = '\001'


def split(line):
    """(trace lines and marks, events without trace) of a logged run."""
    mix, ev = [], []
    for seg in line.split('\002'):
        e, p, t = seg.partition(PROMPT)
        for x in e.split():
            ev.append(x)
            if x[0] in 'tfFOA':
                mix.append(x[0])
            elif x[0] == 'r' or x[0] == 'e':
                mix.append(x.split(',')[0].split(':')[0])
        if p:
            mix.append('|' + t)
    return mix, ev


def prepare(rng):
    k = rng.random()
    if k < 0.55:
        S = lchk.err_setup(rng)
        if S:
            g, a, v, t, f, ins = S
            return g, a, v, t, f, ins
    if k > 0.85:
        for _ in range(40):
            g = gen.ambiguous(rng, assocs='LRNP')
            if g.loopy():
                continue
            g = le.start_ok(g)
            f = lsim.Full()
            P = lchk.prepare(g, f)
            if P:
                a, v, t = P
                ins = [x for x in (g.sentence(rng, rng.choice([3, 8, 15, 30])) for _ in range(60)) if x is not None and len(x) < 60]
                return g, a, v, t, f, ins
    S = l08.make(rng, rng.choice(['fb', 'wild', 'all', 'class', 'fb']))
    if not S:
        return None
    g, f, (a, v, t), g0 = S
    real = [x for x in range(1, g.T) if x not in f.classes]
    ins = []
    inv = {}
    for x, u in f.fallback.items():
        inv.setdefault(u, []).append(x)
    for _ in range(60):
        x = g.sentence(rng, rng.choice([3, 8, 15, 30]))
        if x is None or len(x) > 60:
            continue
        y = []
        for s in x:
            if s >= g.T or s == g.err:
                continue
            if s in f.classes:
                s = rng.choice(f.classes[s][1])
            if s == f.wild and rng.random() < 0.8 or rng.random() < 0.04:
                s = rng.choice(real)
            if s in inv and rng.random() < 0.4:
                s = rng.choice(inv[s])
            y.append(s)
        ins.append(y)
    return g, a, v, t, f, ins


def case(ctx, c):
    rng = c.rng
    S = prepare(rng)
    if not S or not S[5]:
        return
    g, a, v, t, f, ins = S
    lsim.randomize(rng, g, f)
    f.noerr = g.err is None and rng.random() < 0.15
    f.stack = rng.choice([None, None, 0, 0, 4, 6, 9])
    f.prefix = rng.choice(['TK_', '', 'X'])
    order = [x for x in range(1, g.T)]
    rng.shuffle(order)
    opts = [o for o in ('-c', '-l', '-r', '-p') if rng.random() < 0.15]
    cov = rng.random() < 0.5
    sp = le.Spell(g)
    ex = ['%%expect %d' % (t.sr + t.rr)] if t.sr + t.rr else []
    codes = [x for x in order if x not in f.classes]
    done = 'for (i = 0; i < (int)(sizeof vf_codes / sizeof vf_codes[0]); i++) if (vf_codes[i] >= 0) fprintf(stderr, "fb %d %d\\n", i, vf_idx(ParseFallback(vf_codes[i]))); '
    if cov:
        done += '{ char *cb; size_t cl; FILE *cf = open_memstream(&cb, &cl); int nm = ParseCoverage(cf); fclose(cf); fprintf(stderr, "%smissed %d %d\\n", cb, nm, ParseCoverage(0)); }'
    text = lsim.emit(g, sp, rng, f, ex, '', order,
                     begin='if (getenv("VF_TRACE")) ParseTrace(s->out, "\\001");',
                     esc='for (i = 0; s.buf[i]; i++) if (s.buf[i] == 10) s.buf[i] = 2;', done=done)
    files = lchk.build(c, g, f, rng, t, opts, order, text=text, cflags=['-DYYCOVERAGE'] if cov else [])
    if files is None:
        return
    what = 'lemon ' + ' '.join(opts)
    try:
        files['g.out'] = out = open(c.path('g.out'), encoding='latin-1').read()
        rep = lreport.parse(out)
        if f.classes:
            number = numbers(rep, g, f)
        else:
            content = set(x for i, (_, r) in enumerate(g.rules) for j, x in enumerate(r) if j in f.labels.get(i, ()))
            ga = v
            for k in ('after', 'starts', 'rule_of', 'by', 'closure_nts', 'items'):
                setattr(ga, k, getattr(a, k))
            _, number = lreport.check(rep, g, ga, t, sp, f.silent, False, False, False, '-p' in opts, '-c' not in opts, '-r' not in opts, content, lambda k, n=1: None)
    except Bad as e:
        return c.violation('report', '%s: %s\n%s\n%s' % (what, e, g.text(), f.describe()), files)
    m = Machine(rep, number, g, f, sp)
    seqs = lchk.sequences(rng, ins[:70])
    want, ok = [], []
    for x in seqs:
        try:
            m.used_before = set(m.used)
            want.append(m.run(x))
            ok.append(x)
        except lsim.Loop:
            m.used = m.used_before
        except Bad as e:
            return c.violation('report', '%s: %s' % (what, e), files)
    if not ok:
        return
    runs = []
    for tr in (True, False):
        r = env.run(['./p'], inp=by.feed(ok).encode(), cwd=c.dir, env={'VF_TRACE': '1'} if tr else None)
        if r.slow:
            return c.inconclusive('parser slow')
        if r.bad() or r.rc:
            files['stderr'] = r.err
            files['input'] = by.feed(ok)
            return c.violation('run', '%s: the parser%s: %s exit %s\n%s' % (what, ' traced' if tr else '', r.bad(), r.rc, r.etext[:1200]), files)
        runs.append(r)
    lines = runs[0].text.split('\n')[:-1]
    plain = runs[1].text.split('\n')[:-1]
    if len(lines) != len(ok) or len(plain) != len(ok):
        return c.violation('run', '%s: %d and %d lines for %d inputs' % (what, len(lines), len(plain), len(ok)), files)
    for x, w, line, pl in zip(ok, want, lines, plain):
        mix, ev = split(line)
        k = next((i for i in range(max(len(w), len(mix))) if i >= len(w) or i >= len(mix) or w[i] != mix[i]), None)
        fl = dict(files, input=by.feed([x]), trace=line.replace('\002', '\n').replace('\001', 'T: '))
        if k is not None:
            return c.violation('trace', '%s: entry %d is %s, expected %s; before it %s\n%s\n%s\ninput: %s' % (
                what, k, mix[k] if k < len(mix) else 'missing', w[k] if k < len(w) else 'none', w[max(0, k - 3):k], g.text(), f.describe(),
                ' '.join(g.name(y) if y >= 0 else '.' for y in x)), fl)
        if ev != pl.split():
            return c.violation('changes', '%s: with the trace %s\nwithout it %s' % (what, ' '.join(ev)[:1000], pl[:1000]), fl)
        c.evals += 1
        c.count('trace lines', sum(1 for y in w if y[0] == '|'))
        for y in w:
            if y[0] == '|':
                c.count(y[1:].split()[0].strip('!') + ' lines')
        c.saw(g.rules, f.describe(), tuple(x))
        if len(w) > 20:
            c.sample(dict(input=[g.name(y) if y >= 0 else '.' for y in x], trace=w[:30]))
    fb, cv, missed = {}, {}, None
    for r in runs[:1]:
        for y in r.etext.split('\n'):
            y = y.split()
            if y[:1] == ['fb']:
                fb[int(y[1])] = int(y[2])
            elif y[:1] == ['State']:
                cv[(int(y[1]), y[3])] = y[4]
            elif y[:1] == ['missed']:
                missed = (int(y[1]), int(y[2]))
    wf = {x: f.fallback.get(x, 0) for x in [0] + codes}
    if fb != wf:
        return c.violation('fallback', '%s: ParseFallback gives %s, declared are %s' % (what, fb, wf), files)
    c.evals += len(wf)
    c.count('fallbacks asked', len(wf))
    if cov:
        wc = {}
        for s, d in enumerate(m.st):
            for x, act in d.items():
                if x in m.terms and act['kind'] != 'error':
                    wc[(s, x)] = 'ok' if (s, x) in m.used else 'missed'
        n = sum(1 for x in wc.values() if x == 'missed')
        if cv != wc or missed != (n, n):
            dif = [(k, cv.get(k), wc.get(k)) for k in sorted(set(cv) | set(wc)) if cv.get(k) != wc.get(k)]
            return c.violation('coverage', '%s: coverage (state, token), reported, true: %s; missed %s, true %d' % (what, dif[:10], missed, n), files)
        c.evals += len(wc)
        c.count('coverage entries', len(wc))


def numbers(rep, g, f):
    """Rule numbers by their order: rules with code first."""
    order = [i for i in range(len(g.rules)) if i not in f.silent] + [i for i in range(len(g.rules)) if i in f.silent]
    return dict(enumerate(order))
