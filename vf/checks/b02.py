"""B02: conflicts are found, counted and resolved by byacc's documented rules."""
import random
from .. import env, gen, by, oracle
from ..lr import LALR, byacc_table, byacc_quirk, Grammar

TECH = 'runtime event monitor: generated parsers and reported conflict counts against a reference conflict resolution'
NOTE = 'Held on the executions observed; conflict counts, %expect verdicts and the parse of every input are compared with the documented rules applied to an independent automaton.'
TOOLS = ['byacc-san', 'nbyacc-san']
RULE = ('one evaluation = one conflict count compared with the reference LALR(1) automaton, one %expect verdict, or one token '
        'sequence parsed by the generated parser of an ambiguous grammar with random precedences (options none, -u, -z) and '
        'compared with the reference resolution; distinct nontrivial = distinct (grammar, precedences, option, input) where the '
        'grammar has at least one conflict before precedence')
ASSUMES = ['the reference automaton and resolution rules (vf/lr.py)',
           'grammars that are cyclic or hidden left-recursive are checked for their counts only']
KF = 'nonassoc-default'


def plan(ctx):
    k = 6 if ctx.thorough else 1
    out = [['amb', i] for i in range(430 * k)] + [['na', i] for i in range(30 * k)] + [['exp', i] for i in range(60 * k)]
    random.Random(ctx.seed).shuffle(out)
    return [['directed', 0]] + out


def case(ctx, c):
    kind, i = c.spec
    rng = c.rng
    variant = 'byacc' if rng.random() < 0.5 else 'nbyacc'
    opts = []
    mode = rng.choice(['', '', '', '-z', '-u'])
    if kind == 'directed':
        g = gen.g_text('s: e ; e: e LT e | N')
        g.tprec = {1: (1, 'N')}
        mode = ''
    elif kind == 'na':
        g = gen.ambiguous(rng, 'op', assocs='NNL')
    elif rng.random() < 0.12:
        # conflicts on the end marker in the final state
        g = gen.g_text(rng.choice(['s: s s | A | ', 's: s A | s | A', 's: s s s | B | s C', 's: s A s | s B s | I', 's: s A | a ; a: s | B']))
        gen.prec_decls(rng, g)
    else:
        g = gen.ambiguous(rng)
    if mode:
        opts.append(mode)
    midof = {}
    if kind == 'amb' and rng.random() < 0.2:
        g.rprec = [rng.choice(sorted(g.tprec)) if g.tprec and rng.random() < 0.35 else x for x in g.rprec]
        g, midof = gen.mid_actions(rng, g, rng.choice([1, 1, 2, 3]))
        c.count('grammars with actions inside rules')
    a = LALR(g)
    t = byacc_table(a, u=mode == '-u', z=mode == '-z')
    raw = byacc_table(a, u=True)
    sp = by.Spell(g, rng, lit=rng.choice([0, 0.4]))
    silent = frozenset(j for j in range(len(g.rules)) if rng.random() < 0.05 and g.rules[j][0] not in midof)
    extra = []
    want_rc = 0
    if kind == 'exp':
        es = rng.choice([None, t.sr, t.sr, t.sr + 1, max(0, t.sr - 1), 0])
        er = rng.choice([None, t.rr, t.rr, t.rr + 1, 0])
        if es is not None:
            extra.append('%%expect %d' % es)
        if er is not None:
            extra.append('%%expect-rr %d' % er)
        if t.sr + t.rr and ((es is not None and es != t.sr) or (er is not None and er != t.rr)):
            want_rc = 1
    text = by.emit_plain(g, sp, rng, silent, extra=extra, midof=midof)
    c.write('g.y', text)
    r = by.run_byacc(c, variant, opts)
    files = {'g.y': text, 'cmd': variant + ' ' + ' '.join(opts) + ' g.y\n', 'stderr': r.err}
    if r.slow:
        return c.inconclusive('generator slow')
    if r.bad():
        return c.violation('generator', '%s %s: %s' % (variant, opts, r.bad()), files)
    got = by.conflicts(r.etext)
    if got != (t.sr, t.rr):
        return c.violation('count', '%s %s reports %d shift/reduce and %d reduce/reduce conflicts, the grammar has %d and %d\n%s'
                           % (variant, opts, got[0], got[1], t.sr, t.rr, g.text()), files)
    if r.rc != want_rc:
        return c.violation('expect', '%s exits %d with %s for %d/%d conflicts, expected %d' % (variant, r.rc, extra, t.sr, t.rr, want_rc), files)
    c.evals += 1
    c.count('grammars')
    c.count('sr', t.sr)
    c.count('rr', t.rr)
    c.count('resolved by precedence', max(0, raw.sr + raw.rr - t.sr - t.rr))
    if raw.conf:
        c.saw(g.rules, g.tprec, mode)
    if kind == 'exp':
        c.count('expect verdicts')
        return
    if g.loopy():
        c.count('loopy')
        return
    rc, msg = env.compile_c(['y.tab.c'], 'p', cwd=c.dir)
    if rc:
        return c.violation('compile', 'the generated parser does not compile:\n' + msg[:2000], files)
    I = gen.Inputs(g, a, rng)
    if kind == 'directed':
        inputs = [[2, 1, 2, 1, 2], [2, 1, 2], [2]]
    else:
        inputs = I.many(t, n_sent=60, cover=220, budget=14, maxtok=80)
    inputs = [x for x in inputs if oracle.ref_run(a, t, x, limit=20000)[0] != 'loop']
    lines = by.drive(c, './p', inputs, variant + ' ' + ' '.join(opts), files)
    if lines is None:
        return
    q = byacc_quirk(a, t)
    for toks, line in zip(inputs, lines):
        ob = by.parse_line(line)
        c.evals += 1
        o = dict(acc=ob['res'] == 0, err=ob['errs'][0] - 1 if ob['errs'] else None, reds=ob['reds'])
        m, status, pos = oracle.judge(a, t, toks, o, silent)
        if m and status == 'na' and q:
            m2, st2, _ = oracle.judge(a, q, toks, o, silent)
            if not m2:
                c.violation(KF, 'nonassoc error hidden by a default reduction: ' + m, files)
                continue
        if not m and ob['res'] not in (0, 1):
            m = 'yyparse returned %r' % ob['res']
        if not m and status != 'acc' and len(ob['errs']) != 1:
            m = 'yyerror called %d times' % len(ob['errs'])
        if m:
            f = dict(files)
            f['input'] = by.feed([toks])
            f['events'] = line
            return c.violation('resolution', '%s %s: %s\n%s\nprec %s\ninput: %s\nevents:%s' % (
                variant, opts, m, g.text(), {g.name(x): v for x, v in g.tprec.items()}, ' '.join(g.name(x) for x in toks), line[:1500]), f)
        c.count({'acc': 'accepted', 'err': 'rejected', 'na': 'nonassoc errors'}[status])
        if raw.conf:
            c.saw(g.rules, g.tprec, mode, tuple(toks))
        if status == 'acc' and len(toks) > 3 and raw.conf:
            c.sample(dict(grammar=g.text()[:600], prec=str({g.name(x): v for x, v in g.tprec.items()}), opts=opts,
                          input=[g.name(x) for x in toks], events=line[:300]))
