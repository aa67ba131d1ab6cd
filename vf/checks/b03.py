"""B03: the -v report and the -g graph describe the parser that was generated."""
import random, re, os
from .. import env, gen, by, report, ysim
from ..lr import LALR, byacc_table, bits

TECH = 'runtime output monitor: the reports of every run are decoded and compared with the decoded generated tables and with an independent automaton'
NOTE = 'Held on the runs observed; report, graph, generated tables and reference automaton are matched state by state (isomorphism from state 0).'
TOOLS = ['byacc-san', 'nbyacc-san']
RULE = ('one evaluation = one state of one run whose items, actions, gotos and conflicts in y.output, node and edges in y.dot and rows in the '
        'generated tables were compared with each other and with the reference automaton; distinct nontrivial = distinct (grammar, options) compared')
ASSUMES = ['the reference automaton (vf/lr.py)']


def plan(ctx):
    k = 8 if ctx.thorough else 1
    out = []
    for cls in gen.CLASSES:
        out += [[cls, i] for i in range((22 if cls not in ('large', 'kw', 'long') else 8) * k)]
    out += [['nullset', 1000 + i] for i in range(40 * k)] + [['amb', i] for i in range(170 * k)] + [['err', i] for i in range(50 * k)] + [['mid', i] for i in range(60 * k)]
    random.Random(ctx.seed).shuffle(out)
    return out


def case(ctx, c):
    rng = c.rng
    kind = c.spec[0]
    f = by.Full()
    mode = ''
    if kind == 'amb':
        g = gen.ambiguous(rng)
        mode = rng.choice(['', '', '', '-u', '-z'])
    elif kind == 'err':
        g = gen.error_grammar(rng)
    elif kind == 'mid':
        g = gen.conflict_free(rng, rng.choice(['tiny', 'small', 'medium', 'gadget', 'expr'])) if rng.random() < 0.8 else gen.ambiguous(rng)
        if rng.random() < 0.4:
            gen.prec_decls(rng, g, p_rule=0.4)
        g, f.mid, f.midof = by.add_midrules(rng, g, rng.randint(1, 5))
    else:
        g = gen.conflict_free(rng, kind)
        if rng.random() < 0.3:
            gen.prec_decls(rng, g)
    variant = 'byacc' if rng.random() < 0.6 else 'nbyacc'
    opts = [mode] if mode else []
    opts += ['-v', '-g'] + [o for o in ('-d', '-t', '-l', '-r', '-i') if rng.random() < 0.1]
    bt = variant == 'byacc' and rng.random() < 0.15
    if bt and mode != '-z':
        opts.append('-B')
    else:
        bt = False
    pre, suf, hsuf, isuf = 'y', '.tab.c', '.tab.h', '.tab.i'
    k = rng.random()
    if k < 0.2:
        pre = rng.choice(['q', 'sub/x', 'a.b', 'x-1', '9y', './z'])
        opts += ['-b', pre]
    elif k < 0.4:
        pre = rng.choice(['q', 'sub/x', 'a.b', '9y'])
        suf, hsuf, isuf = rng.choice([('.c', '.h', '.i'), ('.tab.c', '.tab.h', '.tab.i')])
        opts += ['-o', pre + suf]
    os.makedirs(c.path('sub'), exist_ok=True)
    sp = by.Spell(g, rng, lit=rng.choice([0, 0.4]))
    text = by.emit_full(g, sp, rng, f).split('static int vf_codes')[0]
    c.write('g.y', text)
    r = by.run_byacc(c, variant, opts)
    files = {'g.y': text, 'cmd': variant + ' ' + ' '.join(opts) + ' g.y\n', 'stderr': r.err}
    if r.slow:
        return c.inconclusive('generator slow')
    if r.bad() or r.rc:
        return c.violation('generator', '%s %s: %s (exit %s)' % (variant, opts, r.bad() or 'fails', r.rc), files)
    for n in ('.output', '.dot'):
        files['y' + n] = open(c.path(pre + n), 'rb').read()
    gname, dtext = report.dot_name(files['y.dot'].decode('latin-1'))
    if gname:
        c.violation('graph-name', '%s %s: the graph is named %s, which is no identifier of the DOT language' % (variant, opts, gname), files)
    try:
        msg = compare(c, g, f, sp, mode, bt, variant, files['y.output'].decode('latin-1'), dtext,
                      ''.join(open(c.path(x), 'rb').read().decode('latin-1') for x in (pre + isuf, pre + hsuf, pre + suf, pre + '.code.c') if os.path.exists(c.path(x))), r.etext)
    except report.Bad as e:
        msg = 'unexpected report: %s' % e
    except (ValueError, IndexError, KeyError, AttributeError) as e:
        import traceback
        msg = 'unreadable report: %r %s' % (e, traceback.format_exc()[-600:])
    if msg:
        return c.violation('report', '%s %s: %s\n%s' % (variant, ' '.join(opts), msg, g.text()), files)
    c.saw(g.rules, g.tprec, tuple(opts), sorted(f.mid.items()))
    c.count('runs')


def compare(c, g, f, sp, mode, bt, variant, otext, dtext, code, etext):
    rep = report.parse_output(otext)
    dstates, dtrans = report.parse_dot(dtext)
    tab = report.Tables(code)
    # symbol names
    nm = {0: '$end'}
    codes = {0: 0}
    nxt = 257
    for t in range(1, g.T):
        if t in sp.lits:
            codes[t] = int(sp.code[t])
            nm[t] = report.canon(codes[t])
        elif t == g.err:
            nm[t] = 'error'
            codes[t] = 256
        else:
            nm[t] = sp.tok[t]
    for m in re.finditer(r'(?m)^#define (TK_\w+) (\d+)$', code):
        for t in range(1, g.T):
            if nm[t] == m.group(1):
                codes[t] = int(m.group(2))
    # rules: byacc puts the empty rule of a mid-rule action before the rule around it
    order = []
    seen = set()
    for i, (l, r) in enumerate(g.rules):
        if l in f.midof:
            continue
        for x in r:
            if x in f.midof:
                order.append(f.midof[x])
        order.append(i)
    k = 0
    for n in range(g.T, g.T + g.N):
        if n not in f.midof:
            nm[n] = sp.nt[n]
    num = {}
    for j, i in enumerate(order):
        num[i] = j + 1
        l = g.rules[i][0]
        if l in f.midof:
            k += 1
            nm[l] = '$$%d' % k
    rules = rep['rules']
    if rules[0] != ('$accept', [nm[g.start], '$end'], None):
        return 'rule 0 is %s' % (rules[0],)
    if len(rules) != len(g.rules) + 1:
        return '%d rules listed, expected %d' % (len(rules), len(g.rules) + 1)
    for i, (l, r) in enumerate(g.rules):
        want = (nm[l], [nm[x] for x in r], nm[g.rprec[i]] if g.rprec[i] is not None and mode != '-u' else None)
        if rules[num[i]] != want:
            return 'rule %d is listed as %s, expected %s' % (num[i], rules[num[i]], want)
    # reference with byacc's rule order, so that conflicts between reductions are resolved alike
    from ..lr import Grammar
    g2 = Grammar(g.T, g.N, [g.rules[i] for i in order], g.start, [g.rprec[i] for i in order], g.tprec, g.err, list(g.terms), list(g.nts))
    a = LALR(g2)
    t = byacc_table(a, u=mode == '-u', z=mode == '-z')
    df = ysim.defred(t, a, g.err)
    if len(rep['states']) != a.nstates:
        return '%d states listed, expected %d' % (len(rep['states']), a.nstates)
    # isomorphism
    sym = {v: k for k, v in nm.items()}
    to = {0: 0}
    fr = {0: 0}
    todo = [0]
    # byacc's automaton has no state after $end
    while todo:
        s = todo.pop()
        R = rep['states'][to[s]]
        moves = dict(R['goto'])
        dm = dict(dtrans.get(to[s], ()))
        if len(dm) != len(dtrans.get(to[s], ())):
            return 'state %d has two edges with the same label' % to[s]
        want = {nm[x]: q for x, q in a.trans[s].items()}
        if set(dm) != set(want):
            return 'the graph has edges on %s from state %d, expected %s' % (sorted(dm), to[s], sorted(want))
        for x, q in want.items():
            k = dm[x]
            if q in to:
                if to[q] != k:
                    return 'edge on %s from state %d leads to %d, expected %d' % (x, to[s], k, to[q])
            else:
                if k in fr:
                    return 'edge on %s from state %d leads to %d which is another state' % (x, to[s], k)
                to[q] = k
                fr[k] = q
                todo.append(q)
    if set(dstates) != set(range(a.nstates)):
        return 'the graph has nodes %s, expected %d states' % (len(dstates), a.nstates)
    by_ = a.by
    internal = {}      # nonterminal -> number in yylhs
    for i in range(len(g2.rules)):
        n = internal.setdefault(g2.rules[i][0], tab.lhs[i + 1])
        if n != tab.lhs[i + 1]:
            return 'yylhs is inconsistent for rule %d' % (i + 1)
        if tab.len[i + 1] != len(g2.rules[i][1]):
            return 'yylen[%d] is %d' % (i + 1, tab.len[i + 1])
    if len(set(internal.values())) != len(internal):
        return 'yylhs gives two nonterminals the same number'
    if tab.final != to[a.accept_state]:
        return 'YYFINAL is %d, the state after the start symbol is %d' % (tab.final, to[a.accept_state])
    confs = {}
    for s_, kind, x, win, lose in t.conf:
        confs.setdefault(s_, []).append((kind, x, win, lose))
    got = {}
    for s_, kind, x, win, lose, lname in rep['conflicts']:
        got.setdefault(s_, []).append((kind, x, win, lose))
        if lname != rules[lose][0] or win[0] == 'r' and win[2] != rules[win[1]][0]:
            return 'conflict of state %d names the wrong nonterminal' % s_
    for s in range(a.nstates):
        k = to[s]
        R = rep['states'][k]
        c.evals += 1
        # kernel and empty items
        items = []
        for it in a.kernels[s]:
            i = a.rule_of[it]
            if i < 0:
                d = 0 if a.after[it] >= 0 else 1
                body = [nm[g.start], '$end']
                items.append(('$accept', body[:d] + ['.'] + body[d:], 0))
            else:
                d = it - a.starts[i]
                body = [nm[x] for x in g2.rules[i][1]]
                items.append((nm[g2.rules[i][0]], body[:d] + ['.'] + body[d:], i + 1))
        eps = set()
        for i in a.la[s]:
            if not g2.rules[i][1]:
                # listed unless precedence removed every reduction by it
                eps.add(i)
        listed = [x for x in R['items']]
        kern = [x for x in listed if not (x[1] == ['.'] and x[2] != 0)]
        nul = [x for x in listed if x[1] == ['.'] and x[2] != 0]
        if sorted(map(str, kern)) != sorted(str(x) for x in items if x[1] != ['.']):
            return 'state %d has items %s, expected %s' % (k, kern, items)
        names_ = set()
        for x in nul:
            if (x[0], x[2]) != (nm[g2.rules[x[2] - 1][0]], x[2]) or x[2] - 1 not in eps:
                return 'state %d lists the empty item %s' % (k, x)
            names_.add(x[2] - 1)
        if len(names_) != len(nul):
            return 'state %d lists an empty item twice' % k
        live = set()
        for x, ac in t.action[s].items():
            if ac[0] == 'r':
                live.add(ac[1])
        for (kind, x, win, lose) in confs.get(s, ()):
            live.add(lose)
            if win[0] == 'r':
                live.add(win[1])
        if not bt and names_ != {i for i in eps if i in live} and mode != '-z':
            return 'state %d lists empty rules %s, expected %s' % (k, sorted(names_), sorted(i for i in eps if i in live))
        # actions
        want_s = {nm[x]: to[ac[1]] for x, ac in t.action[s].items() if ac[0] == 's'}
        want_r = {nm[x]: ac[1] + 1 for x, ac in t.action[s].items() if ac[0] == 'r'}
        d = df[s]
        trial = set()
        if bt:
            # conflicting actions are tried in turn: none of them is listed as settled
            for kind, x, win, lose in confs.get(s, ()):
                if win == ('a',):
                    trial.add((nm[x], 'reduce', lose + 1))
                    want_r.pop(nm[x], None)
                    continue
                # an action that lost to a precedence afterwards is not tried
                for ac in ((win, ('r', lose)) if t.action[s].get(x) == win else (('r', lose),)):
                    trial.add((nm[x], 'shift' if ac[0] == 's' else 'reduce', to[ac[1]] if ac[0] == 's' else ac[1] + 1))
                ac = t.action[s].get(x, ('a',))
                if ac[0] in 'sr':
                    trial.add((nm[x], 'shift' if ac[0] == 's' else 'reduce', to[ac[1]] if ac[0] == 's' else ac[1] + 1))
                want_s.pop(nm[x], None)
                want_r.pop(nm[x], None)
            alls = want_s or any(x[1] == 'shift' for x in trial)
            rs = {n for n in want_r.values()} | {x[2] for x in trial if x[1] == 'reduce'}
            d = None if alls or len(rs) != 1 else rs.pop() - 1
            if d is not None and set(want_r) | {x[0] for x in trial} == {'error'}:
                d = None
            if d is not None:
                trial = {x for x in trial if x[2] != d + 1}
            if len(R['trial']) != len(set(R['trial'])) or set(R['trial']) != trial:
                return 'state %d lists the trial actions %s, expected %s' % (k, R['trial'], sorted(trial))
        if R['shift'] != want_s:
            return 'state %d shifts %s, expected %s' % (k, R['shift'], want_s)
        if R['default'] == 'error':
            if want_r and not bt:
                return 'state %d lists no reductions, expected %s' % (k, want_r)
        elif R['default'] is not None:
            if R['default'] != (d + 1 if d is not None else None):
                return 'state %d reduces by default by %s, expected %s' % (k, R['default'], d)
        elif d is not None:
            return 'state %d lists no default reduction, expected %d' % (k, d + 1)
        for x, (n, l) in R['reduce'].items():
            if rules[n][0] != l:
                return 'state %d: reduce %d [%s] on %s' % (k, n, l, x)
        wr = {x: n for x, n in want_r.items() if d is None or n != d + 1}
        if {x: n for x, (n, l) in R['reduce'].items()} != wr:
            return 'state %d reduces %s, expected %s' % (k, R['reduce'], wr)
        if R['accept'] != (s == a.accept_state):
            return 'state %d: accept %s' % (k, R['accept'])
        want_g = {nm[x]: to[q] for x, q in a.trans[s].items() if x >= g.T}
        if R['goto'] != want_g:
            return 'state %d has gotos %s, expected %s' % (k, R['goto'], want_g)
        # conflicts
        cw = sorted((kind, nm[x], ('a',) if win == ('a',) else ('s', to[win[1]]) if win[0] == 's' else ('r', win[1] + 1, nm[g2.rules[win[1]][0]]), lose + 1)
                    for kind, x, win, lose in confs.get(s, ()))
        cg = sorted(got.get(k, ()))
        if mode != '-z':
            if cw != cg:
                return 'state %d reports conflicts %s, expected %s' % (k, cg, cw)
        nc = (sum(1 for x in cw if x[0] == 'sr'), sum(1 for x in cw if x[0] == 'rr'))
        if rep['nconf'].get(k, (0, 0)) != nc:
            return 'the summary gives state %d %s conflicts, expected %s' % (k, rep['nconf'].get(k), nc)
        # generated tables against the report
        dd = tab.defred[k]
        if (dd or None) != (R['default'] if isinstance(R['default'], int) else None):
            return 'yydefred[%d] is %d, the report says %s' % (k, dd, R['default'])
        for x in range(g.T):
            ac = tab.token(k, codes[x])
            w = ('s', R['shift'][nm[x]]) if nm[x] in R['shift'] else ('r', R['reduce'][nm[x]][0]) if nm[x] in R['reduce'] else None
            if w is None and ac and ac[0] == 'r' and ac[1] == dd and dd:
                continue
            if bt and w is None:
                continue
            if dd and w is None and ac is None:
                continue
            if ac != w:
                return 'the tables of state %d have %s on %s, the report says %s' % (k, ac, nm[x], w)
        for x, q in R['goto'].items():
            if k == 0 and sym[x] == g.start:
                continue        # the driver knows this one
            if tab.goto(k, internal[sym[x]]) != q:
                return 'the tables lead from state %d on %s to %d, the report says %d' % (k, x, tab.goto(k, internal[sym[x]]), q)
        # graph node
        m = node(a, g2, s, nm, t, dstates[k], sym)
        if m:
            return 'graph node %d: %s' % (k, m)
    # summaries
    unused = sorted(i + 1 for i in range(len(g2.rules)) if i not in t.used)
    if not bt:
        if sorted(x[2] for x in rep['unused']) != unused:
            return 'rules never reduced: %s, expected %s' % (rep['unused'], unused)
        for l, r, n in rep['unused']:
            if (l, r) != rules[n][:2]:
                return 'rule never reduced %d is shown as %s' % (n, (l, r))
    T = g.T + (1 if g.err is None else 0)
    N = g.N + 1
    if (rep['nterm'], rep['nnont'], rep['nrules'], rep['nstates']) != (T, N, len(rules), a.nstates):
        return 'totals %s, expected %s' % ((rep['nterm'], rep['nnont'], rep['nrules'], rep['nstates']), (T, N, len(rules), a.nstates))
    if variant == 'byacc':
        sy = rep['symbols']
        if [x[0] for x in sy] != list(range(T + N)):
            return 'symbol numbers %s' % [x[0] for x in sy][:20]
        for i, v, n in sy[:T]:
            if n in sym and sym[n] < g.T and codes[sym[n]] != v or n == 'error' and v != 256:
                return 'the symbol table gives %s the value %d, the parser %s' % (n, v, codes.get(sym.get(n)))
            if n not in sym and n != 'error':
                return 'unknown symbol %s' % n
        if set(n for i, v, n in sy[T:]) != {'$accept'} | {nm[x] for x in range(g.T, g.T + g.N)}:
            return 'nonterminals in the symbol table'
        if len(set(v for i, v, n in sy)) != T + N:
            return 'two symbols have the same parser value'
    if bt and any(x[2] == ('a',) for x in [(0, 0, y[3]) for y in t.conf]):
        c.count('accept/reduce with -B')
    if t.sr + t.rr:
        for pat, w in ((r'(\d+) terminal symbols', T), (r'(\d+) non-terminal symbols', N), (r'(\d+) total symbols', T + N), (r'(?m)^(\d+) rules$', len(rules)),
                       (r'(\d+) states', a.nstates), (r'(?m)^(\d+) conflicts$', t.sr + t.rr)):
            m = re.search(pat, etext)
            if not m or int(m.group(1)) != w:
                return 'statistics: %s is %s, expected %d' % (pat, m and m.group(1), w)
    c.count('conflicts', len(t.conf))
    c.count('gotos', sum(len(x['goto']) for x in rep['states']))
    if len(rep['states']) > 8:
        c.sample(dict(grammar=g.text()[:400], states=a.nstates, conflicts=len(t.conf)))
    return None


def node(a, g, s, nm, t, items, sym):
    """Closure items with lookaheads."""
    want = {}
    clos = []
    for it in a.kernels[s]:
        clos.append(it)
    nts = set()
    for it in a.kernels[s]:
        x = a.after[it]
        if x >= g.T:
            nts.update(a.closure_nts[x])
    for n in nts:
        for i in a.by.get(n, ()):
            if a.starts[i] not in clos:
                clos.append(a.starts[i])
    for it in clos:
        i = a.rule_of[it]
        if i < 0:
            d = 0 if a.after[it] >= 0 else 1
            body = [nm[g.start], '$end']
            want[('$accept', tuple(body[:d] + ['.'] + body[d:]))] = [None]
        else:
            d = it - a.starts[i]
            body = [nm[x] for x in g.rules[i][1]]
            la = None
            if a.after[it] < 0:
                la = sorted(nm[x] for x in bits(a.la[s].get(i, 0)))
            want.setdefault((nm[g.rules[i][0]], tuple(body[:d] + ['.'] + body[d:])), []).append(la)
    got = {}
    for l, body, la in items:
        got.setdefault((l, tuple(body)), []).append(sorted(la) if la is not None else None)
    key = lambda v: sorted(map(str, v))
    if set(want) != set(got):
        return 'items %s, expected %s' % (sorted(set(got) - set(want))[:3], sorted(set(want) - set(got))[:3])
    for k in want:
        if key(want[k]) != key(got[k]):
            return 'item %s has lookaheads %s, expected %s' % (k, got[k], want[k])
    return None
