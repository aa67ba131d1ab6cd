"""Common steps of the checks that compare a generated lemon parser with the model in lsim.py."""
from . import env, gen, le, by, lsim
from .lr import LALR, lemon_table


def prepare(g, f, tries=None):
    """(a, view, table) or None when the grammar is not usable (a rule is never reduced, shift/shift clashes)."""
    a = LALR(g, augmented=False)
    v = lsim.View(a, f)
    if v.clash:
        return None
    t = lemon_table(v)
    if any(i not in t.used for i in range(len(g.rules))):
        return None
    return a, v, t


def build(c, g, f, rng, t, opts=(), order=None, extra=(), inc='', cflags=(), variant='', stem='g', text=None, san=True):
    sp = le.Spell(g)
    if text is None:
        ex = list(extra)
        if t.sr + t.rr:
            ex.append('%%expect %d' % (t.sr + t.rr))
        text = lsim.emit(g, sp, rng, f, ex, inc, order)
    c.write(stem + '.y', text)
    r = le.run_lemon(c, opts, fname=stem + '.y')
    files = {'g.y': text, 'cmd': 'lemon ' + ' '.join(opts) + ' g.y\n', 'stderr': r.err}
    if r.slow:
        c.inconclusive('generator slow')
        return None
    if r.bad() or r.rc:
        c.violation('generator', 'lemon %s: %s (exit %s)\n%s\n%s' % (opts, r.bad() or 'fails', r.rc, r.etext[:1500], g.text()), files)
        return None
    rc, msg = env.compile_c([stem + '.c'], 'p', cwd=c.dir, flags=list(cflags), san=san)
    if rc:
        c.violation('compile', 'the generated parser does not compile:\n' + msg[:2000], files)
        return None
    return files


def clean(ev):
    return [e for e in ev if not e.startswith('dT:0')]


def compare(c, sim, inputs, files, what, key, g, f, lines=None, interesting=None, pre=None, log=False, cmd=None):
    ok = []
    want = []
    hot = []
    for x in inputs:
        try:
            want.append(sim.run(x))
            ok.append(x)
            hot.append(interesting is None or interesting(want[-1]))
        except lsim.Loop:
            c.count('inputs left out (endless in the model)')
    if not ok:
        return True
    if lines is None:
        lines = by.drive(c, './p', ok, what, files)
        if lines is None:
            return False
    for x, m, hit, line in zip(ok, want, hot, lines):
        ev = clean(line.split())
        if pre:
            ev = pre(ev)
        c.evals += 1
        if log:
            m = sim.run(x, ev)
            hit = hit or interesting is None or interesting(m)
        k = lsim.same(m, ev)
        if k is not None:
            fl = dict(files)
            fl['input'] = by.feed([x])
            fl['events'] = line
            c.violation(key, '%s: event %d is %s, expected %s\n%s\n%s\ninput: %s\nexpected: %s\nobserved: %s' % (
                what, k, ev[k] if k < len(ev) else 'missing', m[k] if k < len(m) else 'none', g.text(), f.describe(),
                ' '.join(g.name(y) if y >= 0 else '.' for y in x), ' '.join(m)[:1200], ' '.join(ev)[:1200]), fl)
            return False
        if hit:
            c.saw(g.rules, f.describe(), tuple(x))
        if len(m) > 12:
            c.sample(dict(grammar=g.text()[:500], input=[g.name(y) if y >= 0 else '.' for y in x], events=' '.join(ev)[:400]))
        for e in m:
            n = {'e': '%syntax_error', 'F': '%parse_failure', 'A': '%parse_accept', 'O': '%stack_overflow', 'd': 'destructor calls', 'r': 'actions'}.get(e[0])
            if n:
                c.count(n)
    c.count('grammars')
    return True


def sequences(rng, inputs, n=None, join=0.3):
    """Finished inputs (-1 is the end marker), some abandoned early, some with several parses by one parser."""
    out = []
    for x in inputs:
        k = rng.random()
        if k < 0.12 and x:
            out.append(x[:rng.randint(0, len(x))])
        elif k < 0.12 + join:
            y = rng.choice(inputs)
            out.append(x + [-1] + y + [-1] * (rng.random() < 0.8))
        else:
            out.append(x + [-1])
    return out


def err_setup(rng, with_err=None, tries=60, prep=None):
    """(g, a, view, table, f, base inputs) for a grammar with or without the error symbol."""
    from .lr import byacc_table
    f = lsim.Full()
    for _ in range(tries):
        if with_err is None:
            we = rng.random() < 0.7
        else:
            we = with_err
        if we:
            g0 = gen.error_grammar(rng)
            if g0.loopy():
                continue
            E = g0.err
            a0 = LALR(g0)
            g = le.start_ok(lsim.err_nt(g0))
            strip = lambda x: [y if y < E else y - 1 for y in x if y != E]
        else:
            g0 = gen.conflict_free(rng, rng.choice(['tiny', 'small', 'medium', 'unit', 'null', 'gadget', 'mix', 'expr']))
            a0 = LALR(g0)
            g = le.start_ok(g0)
            strip = lambda x: x
        if g.T < 2:
            continue
        P = prepare(g, f)
        if P:
            break
    else:
        return None
    a, v, t = P
    t0 = byacc_table(a0)
    I = gen.Inputs(g0, a0, rng)
    ins = I.many(t0, 12, 30, 10, 100, 15, 50) + gen.stress_inputs(I, t0, rng, 70)
    return g, a, v, t, f, [strip(x) for x in ins]
