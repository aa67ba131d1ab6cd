"""B01: byacc parsers recognise exactly the language of a conflict-free grammar."""
import random
from .. import env, gen, by, oracle
from ..lr import LALR, byacc_table, earley

TECH = 'runtime event monitor: generated parsers under ASan/UBSan against a reference LALR(1)/Earley oracle'
NOTE = 'Held on the executions observed: the event log of each generated parser (yylex calls, reductions with operands, yyerror, result) is compared with an independent automaton. Nothing is claimed for grammars and inputs that were not run.'
TOOLS = ['byacc-san', 'nbyacc-san']
RULE = ('one evaluation = one token sequence parsed by a parser that byacc generated for a random or structured conflict-free '
        'grammar (both skeletons, varying options), its event log (yylex, reductions with operands, yyerror, result) compared with '
        'an independent LALR(1) automaton and, sampled, with an Earley recogniser; distinct nontrivial = distinct (grammar, input) '
        'with at least two tokens or a syntax error after a shift')
ASSUMES = ['the reference automaton (vf/lr.py), cross-checked by setup_cmd against canonical LR(1) merging and Earley']


def plan(ctx):
    n = dict(tiny=50, small=90, null=70, unit=60, medium=36, gadget=22, mix=28, expr=24, kw=26, long=18, large=18, nullrun=30, nullset=16, ctx=40, sized=12)
    k = 6 if ctx.thorough else 1
    out = [[cls, i] for cls in n for i in range(n[cls] * k)]
    random.Random(ctx.seed).shuffle(out)
    return out


def options(rng):
    o = []
    if rng.random() < 0.25:
        o.append('-l')
    if rng.random() < 0.25:
        o.append('-t')
    if rng.random() < 0.2:
        o.append('-d')
    if rng.random() < 0.15:
        o.append('-v')
    return o


def case(ctx, c):
    cls, i = c.spec
    rng = c.rng
    g = gen.conflict_free(rng, cls)
    a = LALR(g)
    t = byacc_table(a)
    variant = 'byacc' if rng.random() < 0.55 else 'nbyacc'
    opts = options(rng)
    if variant == 'byacc' and rng.random() < 0.15:
        opts.append('-B')
    pure = rng.random() < 0.25
    loc = rng.random() < 0.15 and variant == 'byacc'
    silent = frozenset(j for j in range(len(g.rules)) if rng.random() < 0.08)
    sp = by.Spell(g, rng, lit=rng.choice([0, 0.3, 0.7]), num=rng.choice([0, 0, 0.3]))
    text = by.emit_plain(g, sp, rng, silent, pure, loc)
    c.write('g.y', text)
    if 1:
        r = by.run_byacc(c, variant, opts)
        files = {'g.y': text, 'cmd': variant + ' ' + ' '.join(opts) + ' g.y\n', 'stderr': r.err}
        if r.slow:
            return c.inconclusive('generator slow')
        if r.bad() or r.rc != 0:
            return c.violation('generator', '%s %s on a conflict-free grammar: %s (exit %s)\n%s' % (
                variant, opts, r.bad() or 'fails', r.rc, r.etext[:1500]), files)
        if by.conflicts(r.etext) != (0, 0):
            return c.violation('conflicts', 'conflicts %s reported for a conflict-free grammar' % (by.conflicts(r.etext),), files)
        rc, msg = env.compile_c(['y.tab.c'], 'p', cwd=c.dir)
        if rc:
            return c.violation('compile', 'the generated parser does not compile:\n' + msg[:2000], files)
        I = gen.Inputs(g, a, rng)
        inputs = I.many(t, cover=500 if ctx.thorough else 260)
        lines = by.drive(c, './p', inputs, variant + ' ' + ' '.join(opts), files)
        if lines is None:
            return
        earl = set(rng.sample(range(len(inputs)), min(len(inputs), 25)))
        gr = g.reduce()
        for k, (toks, line) in enumerate(zip(inputs, lines)):
            ob = by.parse_line(line)
            c.evals += 1
            o = dict(acc=ob['res'] == 0, err=ob['errs'][0] - 1 if ob['errs'] else None, reds=ob['reds'])
            m, status, pos = oracle.judge(a, t, toks, o, silent)
            if not m:
                if ob['res'] not in (0, 1):
                    m = 'yyparse returned %r' % ob['res']
                elif status == 'acc' and ob['lex'] != len(toks) + 1:
                    m = 'sentence of %d tokens parsed with %d yylex calls' % (len(toks), ob['lex'])
                elif status == 'err' and len(ob['errs']) != 1:
                    m = 'yyerror called %d times' % len(ob['errs'])
                elif status == 'err' and ob['lex'] != pos + 1:
                    m = 'error at token %d but %d yylex calls' % (pos, ob['lex'])
            if not m and k in earl and len(toks) <= 60:
                e = earley(g, toks)
                c.count('earley')
                if e != ((True, len(toks)) if status == 'acc' else (False, pos)):
                    raise env.HarnessError('oracles disagree: earley %s, LALR %s %s' % (e, status, pos))
            if m:
                f = dict(files)
                f['input'] = by.feed([toks])
                f['events'] = line
                return c.violation('language', '%s %s %s: %s\ninput: %s\nevents:%s' % (
                    variant, opts, 'pure' if pure else '', m, ' '.join(g.name(x) for x in toks), line[:1500]), f)
            c.count('accepted' if status == 'acc' else 'rejected')
            if len(toks) >= 2 or (status != 'acc' and pos > 0):
                c.saw(g.rules, tuple(toks))
            if status == 'acc' and len(toks) > 3:
                c.sample(dict(grammar=g.text()[:600], input=[g.name(x) for x in toks], events=line[:300]))
        c.count('grammars')
        c.count('states', a.nstates)
        c.count('reductions', sum(x.count(' r') for x in lines))
        c.count('variant ' + variant)
