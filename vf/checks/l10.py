"""L10: -g, -y and -Y print equivalent grammars."""
import random, itertools
from .. import le, by, env, bplain, lplain, gen
from ..lr import Grammar, LALR, byacc_table, lemon_table

TECH = 'runtime output monitor: the grammars printed by the sanitized generator are read by independent readers, compared with the grammar that was written, and run through lemon (-g) and byacc (-y, -Y), whose conflicts are compared'
NOTE = 'Held on the runs observed; for each grammar the comparison of tokens, precedences, rules, marks and directives is complete.'
TOOLS = ['lemon-san', 'byacc-san', 'nbyacc-san']
RULE = 'one evaluation = one token, precedence or rule of a printed grammar compared with the grammar; distinct nontrivial = distinct (grammar text, option) compared'
ASSUMES = ['conflict counts of lemon and byacc are compared where the two reference tables (vf/lr.py) count alike']


def plan(ctx):
    k = 10 if ctx.thorough else 1
    out = [['g', i] for i in range(350 * k)] + [['y', i] for i in range(250 * k)] + [['Y', i] for i in range(300 * k)]
    random.Random(ctx.seed).shuffle(out)
    return out


def expand(m, kind, mode):
    """The rules a yacc grammar needs: [set of (lhs, rhs, mark)] per rule."""
    out = []
    for l, pos, mark in m['rules']:
        if kind == 'Y' and mark is None and mode != '-u':
            for x in (reversed(pos) if mode == '-z' else pos):
                if not isinstance(x, tuple):
                    continue
                if mode == '-z':
                    if x[-1] in m['prec']:
                        mark = x[-1]
                    break
                p = [y for y in x if y in m['prec']]
                if p:
                    mark = p[0]
                    break
        k = lambda x: ('t', x) if x[0].isupper() or x == 'error' else ('n', x)
        out.append([(k(l), list(r), ('t', mark) if mark else None)
                    for r in itertools.product(*[[k(y) for y in x] if isinstance(x, tuple) else [k(x)] for x in pos])])
    return out


def case(ctx, c):
    rng = c.rng
    kind = c.spec[0]
    g = lplain.grammar(rng)
    text, m = lplain.emit(g, rng, fb=kind == 'g' or rng.random() < 0.2, wild=kind == 'g', stack=kind == 'g' or rng.random() < 0.3,
                          classes=kind == 'g' or rng.random() < 0.3)
    mode = rng.choice(['', '', '', '', '-u', '-z'])
    ml = [mode] if mode else []
    if mode == '-u':
        m = dict(m, prec={}, rules=[(l, r, None) for l, r, _ in m['rules']])
    n = 1
    for l, pos, _ in m['rules']:
        k = 1
        for x in pos:
            if isinstance(x, tuple):
                k *= len(x)
        n = max(n, k)
    if n > 200:
        return
    c.write('g.y', text)
    r = le.run_lemon(c, ['-' + kind] + ml, 'g.y')
    files = {'g.y': text, 'cmd': 'lemon %s g.y\n' % ' '.join(['-' + kind] + ml), 'stderr': r.err, 'printed': r.out}
    if r.slow:
        return c.inconclusive('generator slow')
    if r.bad() or r.rc not in (0, 1):
        return c.violation('generator', '-%s %s: %s (exit %s)' % (kind, mode, r.bad() or 'fails', r.rc), files)
    c.write('p.y', r.out)
    r0 = le.run_lemon(c, ['-q'] + ml, 'g.y')
    if r0.slow:
        return c.inconclusive('generator slow')
    conf = le.conflicts(r0.etext)
    if kind == 'g':
        try:
            got = lplain.parse_g(r.text)
        except (bplain.Bad, IndexError, ValueError) as e:
            return c.violation('reprint', '-g prints %r' % e, files)
        if mode == '-u' and m['noprec'] <= got['terms'] <= m['terms']:
            m['terms'] = got['terms']
        msg = lplain.diff(got, m)
        if msg:
            return c.violation('reprint', '-g: ' + msg, files)
        r1 = le.run_lemon(c, ['-q'] + ml, 'p.y')
        if r1.slow:
            return c.inconclusive('generator slow')
        if r1.bad() or not m['single'] and (r1.rc != r0.rc or le.conflicts(r1.etext) != conf):
            return c.violation('reprint', 'lemon on the -g grammar: exit %s, %s, %d conflicts; on the original exit %s, %d conflicts\n%s' % (
                r1.rc, r1.bad(), le.conflicts(r1.etext), r0.rc, conf, r1.etext[:300]), files)
        c.evals += len(got['terms']) + len(got['prec']) + len(got['rules']) + 3
    else:
        body = '\n'.join(x for x in r.text.split('\n') if not x.startswith('//')) + '%%\n'
        want = expand(m, kind, mode)
        try:
            if body.count('%%') == 2:
                body = body[:body.rindex('%%')]
            terms, prec, rules, start = bplain.parse_plain(body)
        except (bplain.Bad, IndexError, ValueError) as e:
            return c.violation('reprint', '-%s prints %r' % (kind, e), files)
        t2 = set(x[1] for x in terms) - {'error'}
        if mode == '-u' and m['noprec'] <= t2 <= m['terms']:
            m['terms'] = t2
        if t2 != m['terms']:
            return c.violation('reprint', 'tokens: %s too many, %s missing' % (sorted(t2 - m['terms']), sorted(m['terms'] - t2)), files)
        pk = bplain.prec_order({k[1]: v for k, v in prec.items()})
        if pk != bplain.prec_order(m['prec']):
            return c.violation('reprint', 'precedences %s, expected %s' % (pk, bplain.prec_order(m['prec'])), files)
        i = 0
        for j, w in enumerate(want):
            got = rules[i:i + len(w)]
            i += len(w)
            if sorted(map(repr, got)) != sorted(map(repr, w)):
                return c.violation('reprint', 'rule %d is printed as %s, expected %s' % (j, got, w), files)
        if i != len(rules):
            return c.violation('reprint', '%d rules too many' % (len(rules) - i), files)
        if start != ('n', m['start']):
            return c.violation('reprint', 'start symbol %s' % (start,), files)
        c.evals += len(terms) + len(prec) + len(rules)
        # byacc and lemon must find the same conflicts when no token class is involved
        z = kind == 'Y'
        v = rng.choice(['byacc', 'nbyacc'])
        rb = by.run_byacc(c, v, (['-z'] if z and mode != '-u' else []) + (['-u'] if mode == '-u' else []), 'p.y')
        if rb.slow:
            return c.inconclusive('generator slow')
        if rb.bad() or rb.rc:
            return c.violation('reprint', 'byacc on the -%s grammar: exit %s %s\n%s' % (kind, rb.rc, rb.bad(), rb.etext[:500]), files)
        if z and not any(isinstance(x, tuple) and len(x) > 1 for _, p, _ in m['rules'] for x in p) and not m['single'] and not m['fallback'] and not m['wild'] and g.err is None:
            # explicit marks make the rule precedences independent of the tool
            rp = []
            nm = {}
            tok, nt = {}, {}
            names = sorted(m['terms'])
            T = len(names) + 1
            ix = {('t', x): k + 1 for k, x in enumerate(names)}
            for l, _, _ in rules:
                ix.setdefault(l, T + len([1 for q in ix if q[0] == 'n']))
            N = len([1 for q in ix if q[0] == 'n'])
            gg = Grammar(T, N, [(ix[l], tuple(ix[x] for x in rr)) for l, rr, _ in rules], ix[start],
                         [ix[p] if p else None for _, _, p in rules], {ix[('t', x)]: v_ for x, v_ in m['prec'].items()})
            a = LALR(gg)
            tb = byacc_table(a, z=mode != '-u', u=mode == '-u')
            tl = lemon_table(a, u=mode == '-u', z=mode == '-z')
            if len(tb.conf) == len(tl.conf):
                c.count('conflict counts compared')
                if sum(by.conflicts(rb.etext)) != conf:
                    return c.violation('conflicts', 'byacc finds %s conflicts in the -Y grammar, lemon %d in the original' % (by.conflicts(rb.etext), conf), files)
            else:
                c.count('counted differently')
    c.count('-' + kind)
    c.count('grammars with conflicts', int(conf > 0))
    c.saw(text, kind, mode)
