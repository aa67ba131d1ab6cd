"""L14: lemon's report, statistics and header describe the generated parser."""
import random, re
from .. import gen, le, lsim, lreport
from ..lr import LALR, lemon_table
from ..lreport import Bad, need

TECH = 'runtime output monitor: report, statistics, header and tables written by the sanitized generator compared with a reference automaton'
NOTE = 'Held on the runs observed; for each grammar every state, item, action, conflict mark, symbol, first set and rule of the report is compared.'
TOOLS = ['lemon-san']
RULE = ('one evaluation = one entry (item, action, goto, conflict mark, symbol, first set, rule, header entry or count) compared with the reference automaton or the generated tables; '
        'distinct nontrivial = distinct (grammar, options) compared')
ASSUMES = ['the reference automaton and resolution rules (vf/lr.py)', 'the padding of yy_lookahead is not part of the counted table']


def plan(ctx):
    out = [[i] for i in range(520 * (10 if ctx.thorough else 1))]
    random.Random(ctx.seed).shuffle(out)
    return out


def case(ctx, c):
    rng = c.rng
    k = rng.random()
    g = None
    if k < 0.25:
        g = gen.conflict_free(rng, rng.choice(['tiny', 'small', 'expr', 'kw', 'unit', 'medium', 'long', 'null', 'nullrun', 'nullset']))
    elif k < 0.45:
        g = lsim.err_nt(gen.error_grammar(rng))
    if g is None:
        g = gen.ambiguous(rng, assocs='LRNP')
    g = le.start_ok(g)
    mode = rng.choice(['', '', '', '-z', '%yacc_prec', '-u'])
    opts = ['-s'] + ([mode] if mode[:1] == '-' else [])
    extra = ['%yacc_prec'] if mode[:1] == '%' else []
    opts += [o for o in ('-b', '-c', '-r', '-l') if rng.random() < 0.15]
    if rng.random() < 0.5:
        opts.append('-p')
    u, z = mode == '-u', mode in ('-z', '%yacc_prec')
    if g.err is None and rng.random() < 0.2:
        extra.append('%type ' + rng.choice(sorted(le.Spell(g).nt.values())) + ' {int}')
    a = LALR(g, augmented=False, lemon_err=g.err) if g.err is not None else LALR(g, augmented=False)
    t = lemon_table(a, u=u, z=z)
    sp = le.Spell(g)
    silent = frozenset(j for j in range(len(g.rules)) if rng.random() < rng.choice([0, 0.3, 1]))
    prefix = rng.choice(['', 'TK_', 'T', 'a_'])
    text = emit(g, sp, rng, silent, prefix, extra)
    c.write('g.y', text)
    r = le.run_lemon(c, opts)
    files = {'g.y': text, 'cmd': 'lemon %s g.y\n' % ' '.join(opts), 'stderr': r.err, 'stdout': r.out}
    if r.slow:
        return c.inconclusive('generator slow')
    n = t.sr + t.rr
    dead = [j for j in range(len(g.rules)) if j not in t.used]
    if r.bad() or r.rc != (1 if dead or n else 0):
        return c.violation('generator', 'lemon %s: %s, exit %s\n%s' % (opts, r.bad(), r.rc, r.etext[:500]), files)
    try:
        out, src, hdr = [open(c.path('g' + x), encoding='latin-1').read() for x in ('.out', '.c', '.h')]
    except OSError as e:
        return c.violation('generator', 'lemon %s: %s' % (opts, e), files)
    files.update({'g.out': out, 'g.h': hdr, 'g.c': src})
    ev = [0]

    def count(k, n=1):
        ev[0] += n
        c.count(k, n)
    content = set(x for i, (_, rr) in enumerate(g.rules) if i not in silent for x in rr)
    try:
        rep = lreport.parse(out)
        back, number = lreport.check(rep, g, a, t, sp, silent, z, u, '-b' in opts, '-p' in opts, '-c' not in opts, '-r' not in opts, content, count)
        header(hdr, src, rep, g, sp, prefix, count)
        st = lreport.stats(r.text)
        tb = lreport.tables(src)
        nsym = len(rep['syms'])
        want = dict(T=g.T, N=nsym - g.T, S=nsym, R=len(g.rules), Q=len(rep['states']), C=n)
        for k, w in want.items():
            need(st.get(k) == w, 'statistics: %s is %s, it is %s', [x for x in lreport.STAT if lreport.STAT[x] == k][0], st.get(k), w)
            count('counts')
        if n or 'sr' in st:
            need(st.get('sr') == t.sr and st.get('rr') == t.rr, 'statistics: %s S/R and %s R/R, the grammar has %d and %d', st.get('sr'), st.get('rr'), t.sr, t.rr)
            count('counts', 2)
        need(len(tb['yy_action'][0]) == st['A'], 'statistics: %s action table entries, the table has %s', st['A'], len(tb['yy_action'][0]))
        need(len(tb['yy_lookahead'][0]) == max(st['L'], g.T + st['A']), 'statistics: %s lookahead table entries, the table has %s', st['L'], len(tb['yy_lookahead'][0]))
        size = st['A'] * tb['yy_action'][1] + st['L'] * tb['yy_lookahead'][1]
        for k in ('yy_shift_ofst', 'yy_reduce_ofst', 'yy_default', 'yyFallback'):
            if k in tb and (k != 'yyFallback' or tb[k][0]):
                size += len(tb[k][0]) * tb[k][1]
        need(size == st['Z'], 'statistics: table size %s, the tables have %s bytes', st['Z'], size)
        need(len(tb['yy_default'][0]) == len(rep['states']), 'yy_default has %d entries', len(tb['yy_default'][0]))
        count('counts', 4)
    except Bad as e:
        return c.violation('report', 'lemon %s: %s\n%s\nprec %s' % (opts, e, g.text(), {g.name(x): v for x, v in g.tprec.items()}), files)
    except KeyError as e:
        return c.violation('report', 'lemon %s: %r missing' % (opts, e), files)
    c.evals += ev[0]
    c.saw(text, tuple(opts))
    if n:
        c.count('grammars with conflicts')
    c.sample(dict(opts=opts, states=len(rep['states']), conflicts=n, rules=len(g.rules)))


def emit(g, sp, rng, silent, prefix, extra):
    out = ['%token_type {int}', '%default_type {int}', '%include {int R(int);}']
    if prefix:
        out.append('%token_prefix ' + prefix)
    for t in range(1, g.T):
        if rng.random() < 0.2:
            out.append('%%token %s.' % sp.tok[t])
    out += le.prec_lines(g, sp) + extra
    if g.rules[0][0] != g.start or rng.random() < 0.2:
        out.append('%%start_symbol %s' % sp.nt[g.start])
    lab = lambda i: (None, None) if i in silent else ('R', '{ R = R(0%s); }' % ''.join('+(int)' + le.label(j) for j in range(len(g.rules[i][1]))))
    return '\n'.join(out + le.rules_text(g, sp, lab, rng)) + '\n'


def header(hdr, src, rep, g, sp, prefix, count):
    m = re.match(r'enum (\S*)LemonEnum \{\n(.*?)\n\};\n$', hdr, re.S)
    need(m and m.group(1) == prefix, 'the header is\n%s', hdr[:400])
    ent = []
    for x in m.group(2).split('\n'):
        y = re.match(r' (\S+) = +(\d+)(,?)$', x)
        need(y, 'header line %r', x)
        ent.append((y.group(1), int(y.group(2))))
    want = [(prefix + n, i) for i, n, _, _, _ in rep['syms'][1:g.T]] + [(prefix + 'LEMON_LAST_TOKEN', g.T)]
    need(ent == want, 'the header lists %s, the symbols are %s', ent[:60], want[:60])
    # the same codes in the parser
    m = re.search(r'enum \S*LemonEnum \{(.*?)\};', src, re.S)
    if m:
        got = [(a_, int(b)) for a_, b in re.findall(r'(\w+) *= *(\d+)', m.group(1))]
        need(got == want, 'the parser has the codes %s', got[:60])
    defs = dict((a_, int(b)) for a_, b in re.findall(r'^#define (\S+) +(\d+)$', src, re.M))
    for n, i in want[:-1]:
        need(m or defs.get(n) == i, 'the parser has %s = %s, the header %d', n, defs.get(n), i)
        count('header entries')
    names = re.search(r'yyTokenName\[\] = \{(.*?)\};', src, re.S)
    got = re.findall(r'/\* *(\d+) \*/ "((?:\\.|[^"\\])*)"', names.group(1))
    need([(int(a_), b) for a_, b in got] == [(i, n) for i, n, _, _, _ in rep['syms']], 'yyTokenName is %s', got[:60])
