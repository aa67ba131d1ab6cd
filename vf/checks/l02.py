"""L02: conflicts are found, counted and resolved by lemon's documented rules."""
import random
from .. import env, gen, by, le, oracle
from ..lr import LALR, lemon_table

TECH = 'runtime event monitor: generated parsers and reported conflict counts against a reference conflict resolution'
NOTE = 'Held on the executions observed; conflict counts, exit codes and the parse of every input are compared with the documented rules applied to an independent automaton.'
TOOLS = ['lemon-san']
RULE = ('one evaluation = one conflict count compared with the reference LALR(1) automaton, one %expect verdict, or one token '
        'sequence parsed by the generated parser of an ambiguous grammar with random precedences (options none, -u, -z, %yacc_prec) and '
        'compared with the reference resolution; distinct nontrivial = distinct (grammar, precedences, option, input) where the '
        'grammar has at least one conflict before precedence')
ASSUMES = ['the reference automaton and resolution rules (vf/lr.py)',
           'grammars that are cyclic or hidden left-recursive are checked for their counts only']


def plan(ctx):
    k = 6 if ctx.thorough else 1
    out = [['amb', i] for i in range(430 * k)] + [['na', i] for i in range(30 * k)] + [['exp', i] for i in range(60 * k)]
    random.Random(ctx.seed).shuffle(out)
    return [['directed', 0]] + out


def case(ctx, c):
    kind, i = c.spec
    rng = c.rng
    opts = []
    mode = rng.choice(['', '', '', '', '-z', '%yacc_prec', '-u'])
    if kind == 'directed':
        g = gen.g_text('s: e ; e: e LT e | N')
        g.tprec = {1: (1, 'N')}
        mode = ''
    elif kind == 'na':
        g = gen.ambiguous(rng, 'op', assocs='NPNL')
    else:
        g = gen.ambiguous(rng, assocs='LRNP')
    g = le.start_ok(g)
    extra = []
    if mode[:1] == '-':
        opts.append(mode)
    elif mode:
        extra.append('%yacc_prec')
    a = LALR(g, augmented=False)
    t = lemon_table(a, u=mode == '-u', z=mode in ('-z', '%yacc_prec'))
    raw = lemon_table(a, u=True)
    sp = le.Spell(g)
    opts += [o for o in ('-c', '-p', '-q', '-l') if rng.random() < 0.15]
    silent = frozenset(j for j in range(len(g.rules)) if rng.random() < rng.choice([0, 0.15]))
    n = t.sr + t.rr
    dead = [j for j in range(len(g.rules)) if j not in t.used]
    ex = 0
    if kind == 'exp' or rng.random() < 0.6:
        ex = n if kind != 'exp' else max(0, n + rng.choice([0, 0, 1, -1, 5]))
        if ex or rng.random() < 0.5:
            extra.append('%%expect %d' % ex)
    want_rc = 1 if dead or n != ex else 0
    text = le.emit_plain(g, sp, rng, silent, extra=extra)
    c.write('g.y', text)
    r = le.run_lemon(c, opts)
    files = {'g.y': text, 'cmd': 'lemon ' + ' '.join(opts) + ' g.y\n', 'stderr': r.err}
    if r.slow:
        return c.inconclusive('generator slow')
    if r.bad():
        return c.violation('generator', 'lemon %s: %s' % (opts, r.bad()), files)
    got = le.conflicts(r.etext)
    # lemon prints the count only where it differs from %expect
    if got != (n if n != ex else 0):
        return c.violation('count', 'lemon %s reports %d conflicts, the grammar has %d\n%s\nprec %s'
                           % (opts, got, n, g.text(), {g.name(x): v for x, v in g.tprec.items()}), files)
    if r.rc != want_rc:
        return c.violation('expect', 'lemon exits %d with %s for %d conflicts and %d rules that are never reduced, expected %d\n%s' % (
            r.rc, extra, n, len(dead), want_rc, r.etext[:500]), files)
    c.evals += 1
    c.count('grammars')
    c.count('sr', t.sr)
    c.count('rr', t.rr)
    c.count('rules never reduced', len(dead))
    c.count('resolved by precedence', max(0, raw.sr + raw.rr - n))
    if raw.conf:
        c.saw(g.rules, g.tprec, mode)
    if kind == 'exp':
        c.count('expect verdicts')
        return
    if g.loopy():
        c.count('loopy')
        return
    rc, msg = env.compile_c(['g.c'], 'p', cwd=c.dir)
    if rc:
        return c.violation('compile', 'the generated parser does not compile:\n' + msg[:2000], files)
    I = gen.Inputs(g, a, rng)
    if kind == 'directed':
        inputs = [[2, 1, 2, 1, 2], [2, 1, 2], [2]]
    else:
        inputs = I.many(t, n_sent=60, cover=220, budget=14, maxtok=80)
    inputs = [x for x in inputs if oracle.ref_run(a, t, x, limit=20000)[0] != 'loop']
    lines = by.drive(c, './p', inputs, 'lemon ' + ' '.join(opts), files)
    if lines is None:
        return
    for toks, line in zip(inputs, lines):
        ob = le.parse_line(line)
        if ob['over']:
            c.count('overflow')
            continue
        c.evals += 1
        o = dict(acc=ob['acc'] is not None, err=ob['errs'][0][0] if ob['errs'] else None, reds=ob['reds'])
        m, status, pos = oracle.judge(a, t, toks, o, silent, first_default=False)
        if m:
            f = dict(files)
            f['input'] = by.feed([toks])
            f['events'] = line
            return c.violation('resolution', 'lemon %s %s: %s\n%s\nprec %s\ninput: %s\nevents:%s' % (
                opts, extra, m, g.text(), {g.name(x): v for x, v in g.tprec.items()}, ' '.join(g.name(x) for x in toks), line[:1500]), f)
        c.count({'acc': 'accepted', 'err': 'rejected', 'na': 'nonassoc errors'}[status])
        if raw.conf:
            c.saw(g.rules, g.tprec, mode, tuple(toks))
        if status == 'acc' and len(toks) > 3 and raw.conf:
            c.sample(dict(grammar=g.text()[:600], prec=str({g.name(x): v for x, v in g.tprec.items()}), opts=opts,
                          input=[g.name(x) for x in toks], events=line[:300]))
