"""Reading lemon's report (.out), statistics, header and tables, and checking them against the reference automaton."""
import re
from .lr import bits, lemon_rule_prec


class Bad(Exception):
    pass


def need(cond, fmt, *args):
    if not cond:
        raise Bad(fmt % args)


LINE = '-' * 52


def parse(text):
    parts = text.split(LINE + '\n')
    need(len(parts) == 4, 'the report has %d sections', len(parts))
    rep = dict(states=[], syms=[], syntax=[], rules=[])
    blocks = re.split(r'^State (\d+):\n', parts[0], flags=re.M)
    need(blocks[0] == '', 'text before the first state')
    for num, body in zip(blocks[1::2], blocks[2::2]):
        pieces = body.split('\n\n', 1)
        items, acts = pieces[0].split('\n'), pieces[1] if len(pieces) > 1 else ''
        st = dict(num=int(num), items=[], acts=[])
        for x in items:
            m = re.match(r'    (     |\s*\(\d+\)) (\S+) ::=((?: \S+)*)$', x)
            need(m, 'item line %r', x)
            rhs = m.group(3).split()
            need(rhs.count('*') == 1, 'item line %r', x)
            st['items'].append((int(m.group(1).strip()[1:-1]) if m.group(1).strip() else None, m.group(2),
                                tuple(y for y in rhs if y != '*'), rhs.index('*')))
        for x in acts.split('\n'):
            if x.strip():
                st['acts'].append(action(x))
        rep['states'].append(st)
    lines = parts[1].split('\n')
    need(lines[0] == 'Symbols:', 'no list of symbols')
    for x in lines[2:]:
        if not x:
            continue
        m = re.match(r' *(\d+): ([^\s:]+)(:)?((?: [^\s(]+)*)(?: \(precedence=(\d+)\))?$', x)
        need(m, 'symbol line %r', x)
        rep['syms'].append((int(m.group(1)), m.group(2), bool(m.group(3)), m.group(4).split(), int(m.group(5)) if m.group(5) else None))
    need(parts[2].startswith('Syntax-only Symbols:\n'), 'no list of symbols without content')
    rep['syntax'] = parts[2].split('\n\n', 1)[1].split()
    lines = parts[3].split('\n')
    need(lines[0] == 'Rules:', 'no list of rules')
    for x in lines[1:]:
        if not x:
            continue
        m = re.match(r' *(\d+): (\S+) ::=(.*?)\.(?: \[(\S+) precedence=(-?\d+)\])?$', x)
        need(m, 'rule line %r', x)
        rep['rules'].append((int(m.group(1)), m.group(2), tuple(m.group(3).split()), m.group(4), int(m.group(5)) if m.group(5) else None))
    return rep


def action(line):
    m = re.match(r' *(\S+) (.*?)(?:  /\* because (\S+)==(\S+) \*/)?$', line)
    need(m, 'action line %r', line)
    name, what, b1, b2 = m.groups()
    need(b1 is None or b1 == name, 'action line %r', line)
    d = dict(name=name, because=b2, line=line.strip())
    for kind, pat in (('shift', r'shift +(\d+) *$'), ('accept', r'accept$'), ('error', r'error$'),
                      ('shift-reduce', r'shift-reduce (\d+) +(\S+ ::=.*?) *$'), ('reduce', r'reduce +(\d+) +(\S+ ::=.*?) *$'),
                      ('rconf', r'reduce +(\d+) *\((\S+)\) \*\* Parsing conflict \*\*$'), ('sconf', r'shift +(\d+) +\*\* Parsing conflict \*\*$'),
                      ('sdrop', r'shift +(\d+) +-- dropped by precedence$'), ('rdrop', r'reduce +(\d+) +\((\S+)\) -- dropped by precedence$')):
        m = re.match(pat, what)
        if m:
            d['kind'] = kind
            if m.groups():
                d['n'] = int(m.group(1))
            if len(m.groups()) > 1:
                d['text'] = m.group(2)
            return d
    raise Bad('action line %r' % line)


def firsts(g, err):
    nul = g.nullable()
    F = {n: set() for n in range(g.T, g.T + g.N)}
    ch = True
    while ch:
        ch = False
        for l, r in g.rules:
            for x in r:
                add = {x} if x < g.T else F[x]
                if not add <= F[l]:
                    F[l] |= add
                    ch = True
                if x < g.T or x not in nul:
                    break
    return F, nul


def rule_prec_sym(g, i, z, u):
    if u:
        return None
    if g.rprec[i] is not None:
        return g.rprec[i]
    if z:
        for x in reversed(g.rules[i][1]):
            if x < g.T:
                return x if x in g.tprec else None
        return None
    for x in g.rules[i][1]:
        if x < g.T and x in g.tprec:
            return x
    return None


def check(rep, g, a, t, sp, silent, z, u, basis, shown, compress, resort, content, count):
    """Compare a parsed report with the grammar and the reference automaton; returns the reported state for each reference state."""
    name = {s: sp.sym(s) for s in range(1, g.T + g.N)}
    name[0] = '$'
    err = g.err
    # --- rules
    text = {i: (name[l], tuple(name[x] for x in r)) for i, (l, r) in enumerate(g.rules)}
    need(sorted(x[0] for x in rep['rules']) == list(range(len(g.rules))), 'rules are numbered %s', [x[0] for x in rep['rules']])
    left = {}
    for i, k in text.items():
        left.setdefault(k, []).append(i)
    number = {}
    byline = sorted(rep['rules'], key=lambda x: x[0])
    # the rules with code come first, otherwise in the order of the text
    order = [i for i in range(len(g.rules)) if i not in silent] + [i for i in range(len(g.rules)) if i in silent]
    for n, l, r, p, pn in byline:
        need((l, r) in left and left[(l, r)], 'rule %d is listed as %s ::= %s', n, l, ' '.join(r))
        cand = left[(l, r)]
        i = order[n] if order[n] in cand else cand[0]
        cand.remove(i)
        number[n] = i
        q = rule_prec_sym(g, i, z, u)
        need((p is None) == (q is None) and (q is None or p == name[q]), 'rule %d (%s) has the precedence symbol %s in the report, not %s',
             n, l + ' ::= ' + ' '.join(r), p, q and name[q])
        if q is not None:
            # the mark of a token that has no precedence says so with a negative one
            need(pn is not None and (pn < 0) == (q not in g.tprec), 'rule %d: precedence %s', n, pn)
        count('rules', 1)
    need([x for x in number if (number[x] in silent) != (x >= len(g.rules) - len(silent))] == [], 'the rules with code are not numbered first')
    levels = {}
    # --- symbols
    names = [x[1] for x in rep['syms']]
    need([x[0] for x in rep['syms']] == list(range(len(names))), 'symbols are numbered %s', [x[0] for x in rep['syms']])
    nts = set(range(g.T, g.T + g.N)) | ({err} if err is not None else set())
    want = [name[x] for x in range(g.T)] + [name[x] for x in nts]
    need(set(names) - {'error'} == set(want) - {'error'} and len(set(names)) == len(names), 'symbols are %s', names)
    need(set(names[:g.T]) == set(name[x] for x in range(g.T)), 'the terminals are not numbered first: %s', names)
    need(names[0] == '$', 'symbol 0 is %s', names[0])
    F, nul = firsts(g, err)
    inv = {v: k for k, v in name.items()}
    for n, nm, isnt, first, prec in rep['syms']:
        s = inv.get(nm)
        if s is None:
            need(nm == 'error', 'symbol %s', nm)
            continue
        if s in nts and s != err:
            need(isnt, 'nonterminal %s is listed without its first set', nm)
            w = set(name[x] for x in F[s]) | ({'<lambda>'} if s in nul else set())
            need(len(first) == len(set(first)) and set(first) == w, 'the first set of %s is listed as %s, it is %s', nm, first, sorted(w))
            count('first sets', 1)
        else:
            need(not first, 'terminal %s has a first set', nm)
        lv = None if u or s >= g.T else g.tprec.get(s, (None,))[0]
        need(u or (prec is None) == (lv is None), 'symbol %s has the precedence %s in the report', nm, prec)
        if prec is not None and not u:
            need(levels.setdefault(lv, prec) == prec, 'precedence %s of %s', prec, nm)
        count('symbols', 1)
    lv = sorted(levels)
    need(all(levels[x] < levels[y] for x, y in zip(lv, lv[1:])), 'precedences are %s', levels)
    for n, l, r, p, pn in rep['rules']:
        if p is not None and inv[p] in g.tprec:
            need(levels.get(g.tprec[inv[p]][0]) == pn, 'rule %d has precedence %s', n, pn)
    need(len(rep['syntax']) == len(set(rep['syntax'])), 'symbols without content are listed twice')
    need(set(rep['syntax']) == set(names) - set(name[x] for x in content), 'symbols without content are listed as %s; those with a label are %s',
         rep['syntax'], sorted(name[x] for x in content))
    # --- states
    def item_key(l, r, d):
        return (l, r, d)
    full = {}
    for s in range(a.nstates):
        if basis:
            it = set()
            for k in a.kernels[s]:
                ri = a.rule_of[k]
                it.add((ri, k - a.starts[ri]))
        else:
            it = a.items(s)
        key = {}
        for ri, d in it:
            k = text[ri] + (d,)
            key[k] = key.get(k, 0) + 1
        full.setdefault(frozenset(key.items()), []).append(s)
    need(all(len(v) == 1 for v in full.values()), 'equal states')
    back = {}
    num = {}
    need([x['num'] for x in rep['states']] == list(range(len(rep['states']))), 'states are numbered %s', [x['num'] for x in rep['states']])
    for st in rep['states']:
        key = {}
        for n, l, r, d in st['items']:
            key[(l, r, d)] = key.get((l, r, d), 0) + 1
            need((n is None) == (d < len(r)), 'state %d: rule number %s on the item %s', st['num'], n, (l, r, d))
            if n is not None:
                need(text[number[n]] == (l, r), 'state %d: the completed item of %s is marked (%d)', st['num'], l, n)
        v = full.get(frozenset(key.items()))
        need(v is not None, 'state %d is not a state of the grammar: %s', st['num'], ['%s ::= %s @%d' % x[1:] for x in st['items']])
        need(v[0] not in back, 'state %d is listed twice', st['num'])
        back[v[0]] = st['num']
        num[st['num']] = v[0]
        count('states', 1)
        count('items', len(st['items']))
    need(num[0] == 0, 'state 0 is not the start state')
    def auto(s):
        """The rule that is the only action of state s."""
        rs = set(x for x in t.action[s].values())
        if len(rs) == 1:
            x = rs.pop()
            if x[0] == 'r' and not any(y < g.T for y, q in a.trans[s].items() if (y in t.action[s] and t.action[s][y][0] == 's')):
                return x[1]
        return None
    missing = [s for s in range(a.nstates) if s not in back]
    for s in missing:
        need(compress and resort and auto(s) is not None, 'a state is missing: %s', ['%s @%d' % (text[r], d) for r, d in sorted(a.items(s))])
    count('merged states', len(missing))
    # --- actions
    for st in rep['states']:
        s = num[st['num']]
        seen = {}
        dflt = None
        for x in st['acts']:
            if x['name'] == '{default}':
                need(dflt is None and x['kind'] == 'reduce' and compress, 'state %d: %s', st['num'], x['line'])
                dflt = x
            else:
                need(x['name'] in inv or x['name'] == 'error', 'state %d: %s', st['num'], x['line'])
                seen.setdefault(x['name'], []).append(x)
            if x['kind'] in ('reduce', 'rconf', 'rdrop', 'shift-reduce'):
                need(x['n'] in number, 'state %d: %s', st['num'], x['line'])
                if 'text' in x:
                    l, r = text[number[x['n']]]
                    w = ' '.join((l, '::=') + r) if x['kind'] in ('reduce', 'shift-reduce') else l
                    need(x['text'] == w, 'state %d: %s, but rule %d is %s', st['num'], x['line'], x['n'], w)
            need(x['kind'] not in ('sdrop', 'rdrop') or shown, 'state %d: %s', st['num'], x['line'])
            need(x['kind'] != 'sconf', 'state %d: %s', st['num'], x['line'])
        if dflt:
            need(any(v == ('r', number[dflt['n']]) for v in t.action[s].values()), 'state %d: %s, which is no action of the state', st['num'], dflt['line'])

        def shifted(x, q, what):
            """x says what happens after going to the reference state q."""
            if x['kind'] == 'shift':
                return back.get(q) == x['n'] or (q not in back and x['n'] >= len(rep['states']))
            if x['kind'] == 'shift-reduce':
                return compress and auto(q) == number[x['n']]
            return False
        used = set()
        for tm in range(g.T):
            nm = name[tm]
            if tm == err:
                nm = 'error'
            lst = seen.get(nm, [])
            used.add(nm)
            w = t.action[s].get(tm)
            live = [x for x in lst if x['kind'] in ('shift', 'shift-reduce', 'reduce', 'accept', 'error')]
            rest = [x for x in lst if x not in live]
            need(len(live) <= 1, 'state %d: %s', st['num'], [x['line'] for x in live])
            need(not any(x['because'] for x in lst), 'state %d: %s', st['num'], [x['line'] for x in lst])
            x = live[0] if live else None
            if x is None and w is not None:
                need(w[0] == 'r' and dflt and number[dflt['n']] == w[1], 'state %d has no action on %s, it must %s', st['num'], nm, show(w, text, back))
            elif w is None:
                need(x is None, 'state %d: %s, but %s is an error there', st['num'], x and x['line'], nm)
            elif w[0] == 'n':
                need(x['kind'] == 'error', 'state %d: %s, but %s is an error there by %%nonassoc', st['num'], x['line'], nm)
            elif w[0] == 's':
                need(shifted(x, w[1], nm), 'state %d: %s, it must %s', st['num'], x['line'], show(w, text, back))
            else:
                need(x['kind'] == 'reduce' and number[x['n']] == w[1], 'state %d: %s, it must %s', st['num'], x['line'], show(w, text, back))
            if w is not None:
                count('actions', 1)
            # conflicts
            cw = sorted(c[4] for c in t.conf if c[0] == s and c[2] == tm)
            cg = sorted(number[y['n']] for y in rest if y['kind'] == 'rconf')
            need(cw == cg, 'state %d on %s: marked conflicts are %s, the conflicts are %s', st['num'], nm,
                 [y['line'] for y in rest if y['kind'] == 'rconf'], [text[c] for c in cw])
            count('conflicts marked', len(cw))
            if shown:
                q = a.trans[s].get(tm)
                have = sorted([number[y['n']] for y in rest if y['kind'] in ('rconf', 'rdrop')] + ([w[1]] if w and w[0] == 'r' else []))
                cand = sorted(r for r in a.la[s] if a.la[s][r] >> tm & 1)
                need(have == cand, 'state %d on %s: reductions shown are %s, those of the automaton are %s', st['num'], nm,
                     [y['line'] for y in lst], [text[c] for c in cand])
                drop = [y for y in rest if y['kind'] == 'sdrop']
                need(len(drop) == (1 if q is not None and w[0] == 'r' else 0), 'state %d on %s: %s', st['num'], nm, [y['line'] for y in lst])
                for y in drop:
                    need(y['n'] == back.get(q) or (q not in back and y['n'] >= len(rep['states'])), 'state %d: %s', st['num'], y['line'])
                count('dropped', len(drop) + sum(1 for y in rest if y['kind'] == 'rdrop'))
        for n in range(g.T, g.T + g.N):
            if n == err:
                continue
            nm = name[n]
            lst = seen.get(nm, [])
            used.add(nm)
            q = a.trans[s].get(n)
            if s == 0 and n == g.start:
                need(len(lst) == 1 and lst[0]['kind'] == 'accept', 'state 0 on %s: %s', nm, [y['line'] for y in lst])
                continue
            need(len(lst) == (q is not None), 'state %d on %s: %s', st['num'], nm, [y['line'] for y in lst])
            if q is None:
                continue
            x = lst[0]
            count('gotos', 1)
            if not x['because']:
                need(shifted(x, q, nm), 'state %d: %s, it must %s', st['num'], x['line'], show(('s', q), text, back))
                continue
            # a unit rule without code is skipped
            m, ok, chain = n, False, []
            met = False
            while len(chain) <= g.N:
                r = auto(a.trans[s].get(m, 0)) if m in a.trans[s] else None
                if r is None or r not in silent or len(g.rules[r][1]) != 1 or g.rules[r][1][0] != m:
                    break
                m = g.rules[r][0]
                met = met or name[m] == x['because']
                chain.append(m)
                if met and (s == 0 and m == g.start and x['kind'] == 'accept' or m in a.trans[s] and shifted(x, a.trans[s][m], nm)):
                    ok = True
                    break
            need(compress and ok, 'state %d: %s; unit rules lead from %s to %s', st['num'], x['line'], nm, [name[y] for y in chain])
            count('unit rules skipped', 1)
        if err is not None and err >= g.T:
            q = a.trans[s].get(err)
            lst = [x for x in seen.get('error', []) if x['kind'] in ('shift', 'shift-reduce')]
            used.add('error')
            need(len(lst) == (q is not None) and (q is None or shifted(lst[0], q, 'error')), 'state %d on error: %s', st['num'], [y['line'] for y in lst])
        need(not set(seen) - used, 'state %d has actions on %s', st['num'], sorted(set(seen) - used))
    return back, number


def show(w, text, back):
    if w[0] == 's':
        return 'shift to state %s' % back.get(w[1], '(merged)')
    if w[0] == 'r':
        return 'reduce %s ::= %s' % (text[w[1]][0], ' '.join(text[w[1]][1]))
    return 'be an error'


STAT = {'terminal symbols': 'T', 'non-terminal symbols': 'N', 'total symbols': 'S', 'rules': 'R', 'states': 'Q', 'conflicts': 'C',
        'conflicts S/R': 'sr', 'conflicts R/R': 'rr', 'action table entries': 'A', 'lookahead table entries': 'L', 'total table size (bytes)': 'Z'}


def stats(out):
    d = {}
    for x in out.split('\n'):
        m = re.match(r'  (\S.*?)\.+ +(\d+)$', x)
        if m and m.group(1) in STAT:
            need(STAT[m.group(1)] not in d, 'statistics list %r twice', m.group(1))
            d[STAT[m.group(1)]] = int(m.group(2))
    return d


SIZES = {'unsigned char': 1, 'signed char': 1, 'short': 2, 'unsigned short': 2, 'short int': 2, 'unsigned short int': 2, 'int': 4, 'unsigned int': 4}


def tables(src):
    typ = dict(re.findall(r'#define (YYCODETYPE|YYACTIONTYPE) (.+)', src))
    typ = {k: v.strip() for k, v in typ.items()}
    out = {}
    for m in re.finditer(r'static const (YYCODETYPE|YYACTIONTYPE|(?:un)?(?:signed )?(?:char|short|int)(?: int)?) (yy\w+)\[\] = \{(.*?)\};', src, re.S):
        body = re.sub(r'/\*.*?\*/', '', m.group(3), flags=re.S)
        body = re.sub(r'^#.*$', '', body, flags=re.M)
        t = typ.get(m.group(1), m.group(1))
        out[m.group(2)] = ([int(x) for x in re.findall(r'-?\d+', body)], SIZES[t])
    return out
