"""B05: error recovery of byacc parsers against a model of the POSIX protocol."""
import random
from .. import env, gen, by, ysim
from ..lr import LALR, byacc_table

TECH = 'runtime event monitor: generated parsers under ASan/UBSan, whole event log compared with a model of the recovery protocol'
NOTE = ('Held on the executions observed. The model (vf/ysim.py) is an independent LALR automaton with default reductions and the '
        'documented recovery steps; it predicts every yylex call, reduction, yyerror call, YYRECOVERING value, yynerrs and the result.')
TOOLS = ['byacc-san', 'nbyacc-san']
RULE = ('one evaluation = one damaged token sequence parsed by a generated parser of a grammar with error rules, its complete event log '
        'compared with the model; distinct nontrivial = distinct (grammar, actions, input) in which at least one syntax error or YYERROR occurred')
ASSUMES = ['the reference automaton and the recovery model (vf/lr.py, vf/ysim.py)']


def plan(ctx):
    k = 6 if ctx.thorough else 1
    out = [['err', i] for i in range(300 * k)]
    return [['loop', 0]] + out


def special(rng, g, f):
    for i in range(len(g.rules)):
        if rng.random() < (0.5 if g.err in g.rules[i][1] else 0.12):
            f.special[i] = (rng.choice('EABocoocE'), rng.choice([1, 1, 2, 3]))


def build(c, g, f, rng, variant, opts, extra=(), lit=None, num=0):
    sp = by.Spell(g, rng, lit=rng.choice([0, 0.4]) if lit is None else lit, num=num)
    text = by.emit_full(g, sp, rng, f, extra)
    c.write('g.y', text)
    r = by.run_byacc(c, variant, opts)
    files = {'g.y': text, 'cmd': variant + ' ' + ' '.join(opts) + ' g.y\n', 'stderr': r.err}
    if r.slow:
        c.inconclusive('generator slow')
        return None
    if r.bad() or r.rc != 0:
        c.violation('generator', '%s %s: %s (exit %s)\n%s' % (variant, opts, r.bad() or 'fails', r.rc, r.etext[:1500]), files)
        return None
    rc, msg = env.compile_c(['y.tab.c'], 'p', cwd=c.dir)
    if rc:
        c.violation('compile', 'the generated parser does not compile:\n' + msg[:2000], files)
        return None
    return files


def compare(c, sim, inputs, lines, files, what, key, g, f, interesting=None):
    for toks, line in zip(inputs, lines):
        ev, n, cnt = by.split_line(line)
        m, nerrs = sim.run(toks)
        c.evals += 1
        k = ysim.same(m, ev)
        msg = None
        if k is not None:
            msg = 'event %d is %s, expected %s' % (k, ev[k] if k < len(ev) else 'missing', m[k] if k < len(m) else 'none')
        elif n is not None and n != nerrs:
            msg = 'yynerrs is %d, expected %d' % (n, nerrs)
        elif cnt is not None and cnt != sum(1 for e in m if e[0] == 'r'):
            msg = '%%parse-param counted %d actions, expected %d' % (cnt, sum(1 for e in m if e[0] == 'r'))
        if msg:
            fl = dict(files)
            fl['input'] = by.feed([toks])
            fl['events'] = line
            c.violation(key, '%s: %s\n%s\n%s\ninput: %s\nexpected: %s\nobserved: %s' % (
                what, msg, g.text(), f.describe(), ' '.join(g.name(x) for x in toks), ' '.join(m)[:1200], ' '.join(ev)[:1200]), fl)
            return False
        if interesting is None or interesting(m):
            c.saw(g.rules, str(sorted(f.special.items())), tuple(toks))
        if len(m) > 12:
            c.sample(dict(grammar=g.text()[:500], input=[g.name(x) for x in toks], events=' '.join(ev)[:400]))
        for e in m:
            if e[0] in 'eEABocd':
                c.count({'e': 'syntax errors', 'E': 'YYERROR', 'A': 'YYACCEPT', 'B': 'YYABORT', 'o': 'yyerrok', 'c': 'yyclearin',
                         'd': 'destructor calls'}[e[0]])
    return True


def usable(sim, inputs):
    out = []
    for x in inputs:
        try:
            sim.run(x)
            out.append(x)
        except ysim.Loop:
            pass
    return out


LOOP = r'''
%{
#include <stdio.h>
#include <stdlib.h>
static int n, k;
int yylex(void) { return k++ == 0 ? 'a' : 0; }
void yyerror(const char *s) { }
%}
%%
s : error t ;
t : { if (++n > 1000) { printf("loop\n"); exit(0); } YYERROR; } ;
%%
int main(void) { printf("%d\n", yyparse()); return 0; }
'''


def case(ctx, c):
    rng = c.rng
    if c.spec[0] == 'loop':
        c.write('g.y', LOOP)
        r = by.run_byacc(c, 'byacc', [])
        rc, msg = env.compile_c(['y.tab.c'], 'p', cwd=c.dir)
        r = env.run(['./p'], cwd=c.dir)
        c.evals += 1
        if r.bad() or 'loop' in r.text:
            c.violation('yyerror-in-recovery', 'YYERROR in an action run while still recovering repeats that action for ever: ' + (r.bad() or r.text), {'g.y': LOOP})
        return
    g = gen.error_grammar(rng)
    a = LALR(g)
    t = byacc_table(a)
    variant = 'byacc' if rng.random() < 0.6 else 'nbyacc'
    f = by.Full()
    f.recovering = True
    f.pure = rng.random() < 0.25
    f.loc = variant == 'byacc' and rng.random() < 0.25
    f.silent = frozenset(j for j in range(len(g.rules)) if rng.random() < 0.08)
    special(rng, g, f)
    opts = [o for o in ('-t', '-l') if rng.random() < 0.15]
    if variant == 'byacc' and rng.random() < 0.15 and not t.conf:
        opts.append('-B')
        f.btpop = True
    files = build(c, g, f, rng, variant, opts)
    if files is None:
        return
    I = gen.Inputs(g, a, rng)
    sim = ysim.YSim(a, t, f)
    inputs = I.many(t, 10, 30, 10, 120, 15, 50) + gen.stress_inputs(I, t, rng, 90)
    inputs = usable(sim, inputs)
    lines = by.drive(c, './p', inputs, variant + ' ' + ' '.join(opts), files)
    if lines is None:
        return
    c.count('grammars')
    compare(c, sim, inputs, lines, files, variant + ' ' + ' '.join(opts), 'recovery', g, f,
            lambda m: any(e[0] in 'eE' for e in m))
