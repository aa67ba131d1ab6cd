"""B21: -c, -C and -N describe the grammar."""
import random
import re
from .. import by, bplain

TECH = 'runtime output monitor: the files that the sanitized generator writes for -c, -C and -N are read by independent readers and compared rule by rule with the grammar that was written'
NOTE = 'Held on the runs observed; for each grammar the comparison of tokens, precedences, rules and symbols is complete.'
TOOLS = ['byacc-san', 'nbyacc-san']
RULE = 'one evaluation = one rule, token or precedence of an exported file compared with the grammar; distinct nontrivial = distinct (grammar, spelling) compared'
ASSUMES = ['the readers of the three notations in this file; Carburetta and UniCC themselves are not here']


def plan(ctx):
    out = [[i] for i in range(600 * (10 if ctx.thorough else 1))]
    random.Random(ctx.seed).shuffle(out)
    return out


STR = r"""'(?:[^'\\\n]|\\.)*'|"(?:[^"\\\n]|\\.)*\""""
TOK = re.compile(r"""(?P<sp>\s+|/\*.*?\*/)|(?P<prec>//%%prec\s+\S+)|(?P<b><(?:%s|[A-Za-z_.$][\w.$]*)>)|(?P<t>%%grammar%%|%%%%|%%[a-z_]+|\#!?[a-z]+|%s|[A-Za-z_.$][\w.]*\$?|[:;|]|\d+)""" % (STR, STR), re.S)


def tokens(text):
    p, out = 0, []
    while p < len(text):
        m = TOK.match(text, p)
        if not m:
            raise bplain.Bad('unexpected text %r' % text[p:p + 30])
        if m.lastgroup != 'sp':
            out.append((m.lastgroup, m.group()))
        p = m.end()
    return out


def quoted(text):
    return (text[0], bplain.decode(text))


def groups(body, stops):
    """[(left-hand side, [[token, ..], ..])] of name : alt | alt ; definitions."""
    out, i = [], 0
    while i < len(body):
        if i + 1 >= len(body) or body[i + 1][1] != ':':
            raise bplain.Bad('%s where a definition should begin' % body[i][1])
        out.append((body[i][1], [[]]))
        i += 2
        while True:
            if i >= len(body):
                raise bplain.Bad('the definition of %s does not end' % out[-1][0])
            k, x = body[i]
            i += 1
            if k == 't' and x == ';':
                break
            if k == 't' and x == '|':
                out[-1][1].append([])
            elif k == 't' and (x == ':' or x[0] == '%'):
                raise bplain.Bad('unexpected %s in the definition of %s' % (x, out[-1][0]))
            else:
                out[-1][1][-1].append((k, x))
    seen = [l for l, _ in out]
    if len(set(seen)) != len(seen):
        raise bplain.Bad('two definitions of one symbol')
    return out


def grouped(rules):
    out = {}
    for l, r, p in rules:
        out.setdefault(l, []).append((r, p))
    return list(out.items())


def compare(got, want, c):
    for i in range(max(len(got), len(want))):
        x = got[i] if i < len(got) else None
        y = want[i] if i < len(want) else None
        if x != y:
            raise bplain.Bad('definition %d is %s, expected %s' % (i + 1, x, y))
        c.evals += len(y[1])


def unicc(c, text, nm, model):
    terms, prec, rules, start = model
    norm = lambda k: ('n', k[1].replace('.', '_')) if k[0] == 'n' else ("'", bytes([k[1]])) if k[0] == 'c' else ('"', k[1] if k[0] == 's' else k[1].encode('latin-1'))
    one = lambda x: quoted(x) if x[0] in '\'"' else ('n', x)
    t = tokens(text)
    if [x for _, x in t[:3]] != ['#!mode', 'insensitive', ';']:
        raise bplain.Bad('no mode line')
    i, lvl, gp = 3, 0, {}
    while i < len(t) and t[i][1].startswith('#'):
        a = {'#left': 'L', '#right': 'R', '#nonassoc': 'N', '#precedence': 'P'}[t[i][1]]
        lvl += 1
        i += 1
        while t[i][1] != ';':
            if one(t[i][1]) in gp:
                raise bplain.Bad('two precedences for %s' % t[i][1])
            gp[one(t[i][1])] = (lvl, a)
            i += 1
        i += 1
    wp = {norm(k): v for k, v in prec.items()}
    if bplain.prec_order(gp) != bplain.prec_order(wp):
        raise bplain.Bad('precedences are %s, expected %s' % (sorted(gp.items(), key=str), sorted(wp.items(), key=str)))
    c.evals += len(gp)
    got, goal = [], []
    for l, alts in groups(t[i:], ()):
        if l.endswith('$'):
            l = l[:-1]
            goal.append(('n', l))
        out = []
        for a in alts:
            p = None
            if len(a) > 1 and a[-2][1] == '#precedence':
                p = one(a[-1][1])
                a = a[:-2]
            if any(x[0] == '#' for _, x in a):
                raise bplain.Bad('unexpected # in %s' % a)
            out.append(([one(x) for _, x in a], p))
        got.append((('n', l), out))
    compare(got, grouped([(norm(l), [norm(x) for x in r], norm(p) if p else None) for l, r, p in rules]), c)
    if goal != [norm(start)]:
        raise bplain.Bad('start symbols are %s, expected %s' % (goal, norm(start)))


def carburetta(c, text, nm, model):
    terms, prec, rules, start = model
    t = tokens(text)
    words = [x for _, x in t]
    if words.count('%grammar%') != 1:
        raise bplain.Bad('%d grammar sections' % words.count('%grammar%'))
    i = words.index('%grammar%')
    toks = []
    for j in range(0, i, 2):
        if words[j] != '%token' or j + 1 >= i:
            raise bplain.Bad('unexpected %s among the tokens' % words[j])
        toks.append(words[j + 1])
    if len(set(toks)) != len(toks):
        raise bplain.Bad('a token is declared twice')
    i += 1
    nts = []
    while i < len(words) and words[i] == '%nt':
        i += 1
        n = len(nts)
        while i + 1 < len(words) and words[i + 1] != ':' and words[i] != '%nt':
            nts.append(words[i])
            i += 1
        if len(nts) == n:
            raise bplain.Bad('empty %nt')
    want = grouped(rules)
    wn = [k[1].replace('.', '_') for k, _ in want]
    if sorted(nts) != sorted(wn):
        raise bplain.Bad('the nonterminals are %s, expected %s' % (sorted(nts), sorted(wn)))
    if len(toks) != len([k for k in terms if k != ('t', 'error')]):
        raise bplain.Bad('%d tokens, expected %d' % (len(toks), len(terms) - 1))
    to, back = {('t', 'error'): 'error'}, {'error': ('t', 'error')}
    got = groups(t[i:], ())
    if [l for l, _ in got] != wn:
        raise bplain.Bad('definitions of %s, expected %s' % ([l for l, _ in got], wn))

    def same(name, k, what):
        if k[0] == 'n':
            if name != k[1].replace('.', '_'):
                raise bplain.Bad('%s is %s, expected %s' % (what, name, k[1]))
            return
        if name not in toks and name != 'error':
            raise bplain.Bad('%s is %s, which is not declared' % (what, name))
        if to.setdefault(k, name) != name or back.setdefault(name, k) != k:
            raise bplain.Bad('%s is %s, which stands for %s elsewhere; expected %s (elsewhere %s)' % (what, name, back.get(name), k, to.get(k)))
        if k[0] == 't' and re.sub('[^a-z0-9]', '', k[1].lower()) not in re.sub('[^a-z0-9]', '', name.lower()):
            raise bplain.Bad('%s is %s, expected %s' % (what, name, k))
    for (l, alts), (k, ws) in zip(got, want):
        if len(alts) != len(ws):
            raise bplain.Bad('%d rules for %s, expected %d' % (len(alts), l, len(ws)))
        for a, (r, p) in zip(alts, ws):
            marks = [x for q, x in a if q == 'prec']
            a = [x for q, x in a if q != 'prec']
            if len(a) != len(r) or len(marks) != (p is not None):
                raise bplain.Bad('a rule of %s is %s, expected %s' % (l, a, r))
            for x, y in zip(a, r):
                same(x, y, 'a symbol of ' + l)
            if p:
                same(marks[0].split()[1], p, 'the precedence of a rule of ' + l)
            c.evals += 1


def naked(c, text, nm, model):
    terms, prec, rules, start = model
    out = []
    named = set(k[1] for k in terms if k[0] == 't')
    for k, x in tokens(text):
        if k == 'b':
            x = x[1:-1]
            if x[0] not in '\'"' and x not in named:
                raise bplain.Bad('<%s> is not a token' % x)
        elif k == 't' and x in named:
            raise bplain.Bad('the token %s is not in angle brackets' % x)
        out.append(x)
    got = bplain.parse_tokens(out)
    c.evals += len(got[0]) + len(got[1]) + len(got[2])
    msg = bplain.diff(got, model)
    if msg:
        raise bplain.Bad(msg)


def case(ctx, c):
    rng = c.rng
    while True:
        g = bplain.grammar(rng)
        nm = bplain.Names(g, rng)
        m = bplain.model(g, nm)
        # names that stay different in every notation
        k = [re.sub(r'\W', '', str(x[1]).lower()) for x in nm.key.values() if x[0] in 'tn']
        lits = [by_name(x) for x in nm.key.values() if x[0] in 'cs']
        if len(set(k)) == len(k) and len(set(lits)) == len(lits) and not set(k) & set(lits) and all(len(x) < 60 for x in k) and not any(x.startswith('tk') for x in k):
            break
    variant = 'byacc' if rng.random() < 0.6 else 'nbyacc'
    text, bare, mids = bplain.emit(g, nm, rng, btyacc=variant == 'byacc', mid=rng.choice([0, 0.2]))
    c.write('g.y', text.encode('latin-1'))
    kinds = [x for x in ('-c', '-C', '-N') if rng.random() < 0.7] or ['-C']
    opts = kinds + [o for o in ('-d', '-v', '-l', '-t', '-S', '-E', '-e') if rng.random() < 0.1]
    r = by.run_byacc(c, variant, opts)
    files = {'g.y': text.encode('latin-1'), 'cmd': '%s %s g.y\n' % (variant, ' '.join(opts)), 'stderr': r.err}
    if r.slow:
        return c.inconclusive('generator slow')
    if r.bad() or r.rc:
        return c.violation('generator', '%s %s: %s (exit %s)\n%s' % (variant, opts, r.bad() or 'fails', r.rc, r.etext[:500]), files)
    for k, f, fn in (('-c', 'y.ycbrt', carburetta), ('-C', 'y.ypar', unicc), ('-N', 'y.yn', naked)):
        if k not in kinds:
            continue
        files[f] = open(c.path(f), 'rb').read()
        try:
            fn(c, files[f].decode('latin-1'), nm, m)
        except bplain.Bad as e:
            return c.violation(k, '%s: %s' % (k, e), files)
        c.count('files of ' + k)
    c.count('mid-rule actions', mids)
    c.count('rules', len(g.rules))
    c.saw(text)


def by_name(k):
    """A spelling that differs whenever the names that -c gives to literals do."""
    return 'tk%s' % (k[1] if k[0] == 'c' else k[1].decode('latin-1').lower())
