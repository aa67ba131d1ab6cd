"""lemon grammars as plain text in many spellings, and readers for lemon's exported grammars.

The model of a grammar: dict(terms, prec {token: (level, assoc)}, rules [(lhs, [position, ...], mark or None)], start, fallback, wild, stack);
a position is a nonterminal's name or the tuple of the tokens that match there.
"""
import re
from . import le, gen, bplain
from .lr import Grammar

Bad = bplain.Bad


def names(g, rng):
    tok, nt = {}, {}
    for t in range(1, g.T):
        b = re.sub(r'\W', '_', g.terms[t])
        b = rng.choice(['', '', '', 'Q' * 35 + '_', 'A_']) + b[0].upper() + b[1:] if rng.random() < 0.2 else b[0].upper() + b[1:]
        if not b[0].isalpha():
            b = 'Z' + b
        tok[t] = '%s%s%d' % (b, rng.choice(['_', 'x', '__']), t)
    for n in range(g.T, g.T + g.N):
        b = re.sub(r'\W', '_', g.nts[n - g.T])
        b = b[0].lower() + b[1:]
        if not b[0].isalpha():
            b = 'z' + b
        nt[n] = '%s%s%d' % (b, rng.choice(['_', 'x', '__']), n)
    if g.err is not None:
        if g.err >= g.T:
            nt[g.err] = 'error'
        else:
            tok[g.err] = 'error'
    return tok, nt


def grammar(rng):
    while True:
        k = rng.random()
        if k < 0.45:
            g = gen.conflict_free(rng, rng.choice(['tiny', 'small', 'null', 'unit', 'medium', 'gadget', 'mix', 'expr', 'tiny', 'kw', 'long']))
            if g is None:
                continue
            if rng.random() < 0.3:
                gen.prec_decls(rng, g)
        elif k < 0.8:
            g = gen.ambiguous(rng)
        else:
            g = gen.error_grammar(rng)
        return le.start_ok(g)


def emit(g, rng, fb=True, classes=True, wild=True, stack=True, labels=True):
    """(text, model)"""
    tok, nt = names(g, rng)
    err = g.err
    sym = lambda x: tok[x] if x < g.T else nt[x]
    terms = [t for t in range(1, g.T) if t != err]
    used = set(x for _, r in g.rules for x in r)
    m = dict(terms=set(), prec={}, rules=[], start=nt[g.start], fallback={}, wild=None, stack=None)
    m['single'] = False     # a class of one token: it conflicts with that token, but no export can tell them apart
    extra = ['EXTRA_%d' % i for i in range(rng.choice([0, 0, 1, 3]))]
    head = ['%token_type {int}'] if rng.random() < 0.5 else []
    decl = []
    # classes: a terminal of the grammar stands for several tokens at some of its places
    cls = {}
    pool = [tok[t] for t in terms] + extra
    named = {}
    if classes and pool:
        for q in range(rng.choice([0, 0, 1, 2])):
            mem = rng.sample(pool, min(len(pool), rng.randint(1, 4)))
            nm = 'cls%d' % q
            named[nm] = mem
            decl.append('%%token_class %s %s.' % (nm, rng.choice([' ', '|']).join(mem) if rng.random() < 0.8 else '|'.join(mem)))
    ptok = set()
    lv = {}
    for t, (l, a) in g.tprec.items():
        if t != err:
            lv.setdefault((l, a), []).append(t)
    kw = {'L': '%left', 'R': '%right', 'N': '%nonassoc', 'P': '%precedence'}
    for (l, a) in sorted(lv):
        head.append('%s %s.' % (kw[a], ' '.join(tok[t] for t in lv[(l, a)])))
        for t in lv[(l, a)]:
            m['prec'][tok[t]] = (l, a)
            ptok.add(tok[t])
    for t in pool:
        if rng.random() < 0.25:
            decl.append('%%token %s.' % t)
            m['terms'].add(t)
    if fb and pool and rng.random() < 0.5:
        p = list(pool)
        rng.shuffle(p)
        tg = p[:max(1, len(p) // 3)]
        byt = {}
        for x in p[len(tg):]:
            if rng.random() < 0.6:
                byt.setdefault(rng.choice(tg), []).append(x)
        for x, mem in byt.items():
            k = rng.randint(1, len(mem))
            for part in (mem[:k], mem[k:]):
                if part:
                    decl.append('%%fallback %s %s.' % (x, ' '.join(part)))
            for y in mem:
                m['fallback'][y] = x
            m['terms'] |= {x} | set(mem)
    if wild and pool and rng.random() < 0.3:
        m['wild'] = rng.choice(pool)
        m['terms'].add(m['wild'])
        decl.append('%%wildcard %s.' % m['wild'])
    if stack and rng.random() < 0.4:
        m['stack'] = rng.choice(['50', '1000', '2*3', 'DEPTH', '0', "sizeof('x')", "'z'"])
        decl.append('%%stack_size %s' % (m['stack'] if re.fullmatch(r'\w+', m['stack']) and rng.random() < 0.5 else '{%s}' % m['stack']))
    rng.shuffle(decl)
    # a class must be declared before it is used, everything else may come anywhere
    head += decl
    if g.rules[0][0] != g.start or rng.random() < 0.3:
        head.append('%%start_symbol %s' % nt[g.start])
    out = []
    for i, (l, r) in enumerate(g.rules):
        parts, pos = [], []
        for x in r:
            if x >= g.T:
                parts.append(nt[x])
                pos.append(nt[x])
                continue
            if x != err and named and rng.random() < 0.15:
                n = rng.choice(list(named))
                more = rng.sample(pool, min(len(pool), rng.choice([0, 0, 0, 1, 2])))
                more = [y for y in more if y not in named[n]]
                parts.append('|'.join([n] + more))
                pos.append(tuple(named[n] + more))
                m['single'] |= len(pos[-1]) == 1
            elif x != err and classes and len(pool) > 1 and rng.random() < 0.08:
                mem = [tok[x]] + rng.sample([y for y in pool if y != tok[x]], min(len(pool) - 1, rng.randint(1, 3)))
                parts.append(rng.choice(['|', '|', ' |']).join(mem))
                pos.append(tuple(mem))
            else:
                parts.append(tok[x])
                pos.append((tok[x],) if x != err else 'error')
            if isinstance(pos[-1], tuple):
                m['terms'] |= set(pos[-1])
        mark = tok[g.rprec[i]] if g.rprec[i] is not None else None
        if mark:
            ptok.add(mark)
        m['rules'].append((nt[l], pos, mark))
        act = labels and rng.random() < 0.4
        if act:
            parts = [p + '(%s)' % le.label(j) for j, p in enumerate(parts)]
        s = '%s%s ::= %s.' % (nt[l], '(R)' if act else '', ' '.join(parts))
        if mark:
            s += ' [%s]' % mark
        if act:
            s += ' { R = f(%s); }' % ', '.join(le.label(j) for j in range(len(parts)))
        out.append(s)
    for n, mem in named.items():
        m['terms'] |= set(mem)
    m['noprec'] = set(m['terms'])
    m['terms'] |= ptok
    return '\n'.join(head + out) + '\n', m


def diff(got, want, keys=('terms', 'prec', 'start', 'fallback', 'wild', 'stack', 'rules'), sets=True):
    for k in keys:
        a, b = got[k], want[k]
        if k == 'prec':
            a, b = bplain.prec_order(a), bplain.prec_order(b)
        if k == 'rules':
            # a class names a set of tokens
            nrm = lambda rs: [(l, [tuple(sorted(set(x))) if isinstance(x, tuple) else x for x in r], p) for l, r, p in rs]
            a, b = nrm(a), nrm(b)
            for i in range(max(len(a), len(b))):
                x = a[i] if i < len(a) else None
                y = b[i] if i < len(b) else None
                if x != y:
                    return 'rule %d is %s, expected %s' % (i, x, y)
        elif a != b:
            if isinstance(a, set):
                return '%s: %s too many, %s missing' % (k, sorted(a - b), sorted(b - a))
            return '%s: %s, expected %s' % (k, a, b)


def parse_sql(db):
    sym, nts = {}, set()
    for i, n, t, fb in db.execute('SELECT id, name, isTerminal, fallback FROM symbol').fetchall():
        if n in [x for x, _ in sym.values()]:
            raise Bad('symbol %s listed twice' % n)
        sym[i] = (n, fb)
        if not t:
            nts.add(n)
    m = dict(terms=set(n for n, _ in sym.values() if n not in nts), nts=nts,
             prec={sym[i][0]: (p, a) for i, p, a in db.execute('SELECT id, prec, assoc FROM precedence').fetchall()},
             fallback={n: sym[f][0] for n, f in sym.values() if f is not None}, rules=[])
    for i, l, p in db.execute('SELECT ruleid, lhs, prec_id FROM rule ORDER BY ruleid').fetchall():
        pos = []
        last = -1
        for q, s in db.execute('SELECT pos, sym FROM rulerhs WHERE ruleid=? ORDER BY id', (i,)).fetchall():
            if s is None:
                raise Bad('NULL in rule %d' % i)
            n = sym[s][0]
            if q == last:
                if n in nts or not isinstance(pos[-1], tuple):
                    raise Bad('rule %d has two symbols at %d' % (i, q))
                pos[-1] += (n,)
            elif q == last + 1:
                pos.append(n if n in nts else (n,))
                last = q
            else:
                raise Bad('rule %d has position %d after %d' % (i, q, last))
        m['rules'].append((sym[l][0], pos, sym[p][0] if p is not None else None))
    n = db.execute('SELECT count(*) FROM rulerhs WHERE ruleid NOT IN (SELECT ruleid FROM rule)').fetchone()[0]
    if n:
        raise Bad('%d right-hand side rows without rule' % n)
    d = db.execute('SELECT start_symbol, stack_size, wildcard FROM directives').fetchall()
    if len(d) != 1:
        raise Bad('directives %s' % d)
    m['start'], m['stack'], m['wild'] = sym[d[0][0]][0], d[0][1], sym[d[0][2]][0] if d[0][2] is not None else None
    return m


TOK = re.compile(r'\s+|/\*.*?\*/|//[^\n]*|%[a-z_]+|[A-Za-z_]\w*|::=|\{[^}]*\}|\d+|[.|\[\]]', re.S)


def parse_g(text):
    """A plain lemon grammar as printed by -g."""
    p = 0
    t = []
    while p < len(text):
        k = TOK.match(text, p)
        if not k:
            raise Bad('unexpected text %r' % text[p:p + 30])
        x = k.group()
        if not x.isspace() and not x.startswith(('/*', '//')):
            t.append(x)
        p = k.end()
    m = dict(terms=set(), prec={}, rules=[], start=None, fallback={}, wild=None, stack=None)
    i = lvl = 0
    def name(x):
        if not re.fullmatch(r'[A-Z]\w*', x):
            raise Bad('%s where a token belongs' % x)
        m['terms'].add(x)
        return x
    while i < len(t):
        x = t[i]
        if x[0] == '%':
            i += 1
            if x == '%start_symbol':
                m['start'] = t[i]
                i += 1
                continue
            if x == '%stack_size':
                m['stack'] = t[i].strip('{}')
                i += 1
                continue
            args = []
            while t[i] != '.':
                args.append(name(t[i]))
                i += 1
            i += 1
            if x == '%token':
                pass
            elif x == '%wildcard':
                m['wild'], = args
            elif x == '%fallback':
                for y in args[1:]:
                    if y in m['fallback']:
                        raise Bad('two fallbacks for %s' % y)
                    m['fallback'][y] = args[0]
            elif x in ('%left', '%right', '%nonassoc', '%precedence'):
                lvl += 1
                for y in args:
                    if y in m['prec']:
                        raise Bad('two precedences for %s' % y)
                    m['prec'][y] = (lvl, x[1].upper())
            else:
                raise Bad('directive %s' % x)
            continue
        if t[i + 1] != '::=':
            raise Bad('%s %s' % (x, t[i + 1]))
        i += 2
        pos = []
        while t[i] != '.':
            if t[i] == '|':
                pos[-1] += (name(t[i + 1]),)
                i += 2
            elif t[i][0].isupper():
                pos.append((name(t[i]),))
                i += 1
            elif t[i][0].isalpha():
                pos.append(t[i])
                i += 1
            else:
                raise Bad('%s in a rule' % t[i])
        i += 1
        mark = None
        if i < len(t) and t[i] == '[':
            mark = name(t[i + 1])
            if t[i + 2] != ']':
                raise Bad('mark')
            i += 3
        m['rules'].append((x, pos, mark))
    if m['start'] is None:
        m['start'] = m['rules'][0][0]
    return m
