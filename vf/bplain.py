"""byacc grammars as plain text in many spellings, and readers for byacc's exported grammars.

A symbol is written down as ('c', code) for a character literal, ('s', bytes) for a longer string token,
('t', name) for a named token and ('n', name) for a nonterminal.
"""
import re, sqlite3
from . import by, gen

ESCS = {'a': 7, 'b': 8, 'f': 12, 'n': 10, 'r': 13, 't': 9, 'v': 11}


def decode(lit):
    """Bytes denoted by a quoted literal."""
    out = []
    s = lit[1:-1]
    i = 0
    while i < len(s):
        ch = s[i]
        i += 1
        if ch != '\\':
            out += list(ch.encode('latin-1'))
            continue
        ch = s[i]
        i += 1
        if ch in ESCS:
            out.append(ESCS[ch])
        elif ch in '01234567':
            m = re.match(r'[0-7]{1,3}', s[i - 1:])
            out.append(int(m.group(), 8))
            i += len(m.group()) - 1
        elif ch == 'x':
            m = re.match(r'[0-9a-fA-F]+', s[i:])
            out.append(int(m.group(), 16))
            i += len(m.group())
        elif ch == '\n':
            pass
        else:
            out += list(ch.encode('latin-1'))
    return bytes(out)


def canon(text, nts):
    if text[0] in '\'"':
        b = decode(text)
        return ('c', b[0]) if len(b) == 1 else ('s', b)
    return ('n', text) if text in nts else ('t', text)


def spell_bytes(rng, b, quote):
    out = ''
    for k, ch in enumerate(b):
        nxt = chr(b[k + 1]) if k + 1 < len(b) else ''
        p = rng.random()
        c = chr(ch)
        rev = {v: k for k, v in ESCS.items()}
        if c in ('\\', quote) or c in '\'"' and p < 0.3:
            out += '\\' + c
        elif ch in rev and p < 0.6:
            out += '\\' + rev[ch]
        elif 32 <= ch < 127 and p < 0.85:
            out += c
        elif p > 0.93 and nxt not in '0123456789abcdefABCDEF' or ch >= 32 and ch < 127 and not nxt and p > 0.9:
            out += '\\x%x' % ch
        elif nxt and nxt in '01234567':
            out += '\\%03o' % ch
        else:
            out += '\\%o' % ch
    return quote + out + quote


class Names:
    """Spellings of the symbols of one grammar; the same symbol may be spelled differently at each use."""

    def __init__(self, g, rng, lit=0.3, string=0.2, odd=0.15, num=0.1):
        self.g, self.rng = g, rng
        self.key = {}
        self.num = {}
        pool = list(by.LITS) if rng.random() < 0.7 else list(range(1, 256))
        rng.shuffle(pool)
        used = set()
        for t in range(1, g.T):
            if t == g.err:
                self.key[t] = ('t', 'error')
                continue
            p = rng.random()
            if p < lit and pool:
                self.key[t] = ('c', pool.pop())
            elif p < lit + string:
                while True:
                    n = rng.randint(2, 6)
                    b = bytes(rng.choice(list(b'abcXYZ<>=+-&|!?:%_.,;09') + ([39, 34, 92, 32] if rng.random() < 0.3 else []) + ([10, 9, 200, 1] if rng.random() < 0.05 else []))
                              for _ in range(n))
                    if b not in used:
                        break
                used.add(b)
                self.key[t] = ('s', b)
            else:
                self.key[t] = ('t', self.name('T', t, odd))
                if rng.random() < num:
                    self.num[t] = 1000 + t
        for n in range(g.T, g.T + g.N):
            self.key[n] = ('n', self.name('n', n, odd))
        if rng.random() < 2 * odd and g.N > 1:
            # names that begin alike
            s, n = rng.sample(range(g.T, g.T + g.N), 2) if rng.random() < 0.5 else (g.start, rng.choice([n for n in range(g.T, g.T + g.N) if n != g.start]))
            if len(self.key[s][1]) < 40:
                self.key[n] = ('n', self.key[s][1] + rng.choice(['_list%d', 's%d', '%d']) % n)

    def name(self, kind, i, odd):
        rng = self.rng
        base = re.sub(r'\W', '_', self.g.name(i))
        if rng.random() < odd:
            k = rng.randrange(6)
            base = [base + '_', base + '.x', '_' + base, base + '0', 'q' * 40 + base, base[0].swapcase() + base[1:]][k]
        return '%s_%s%d' % (base, kind, i) if rng.random() < 0.15 else base + '_%d' % i

    def use(self, s):
        k, v = self.key[s]
        if k == 'c':
            return spell_bytes(self.rng, bytes([v]), '"' if self.rng.random() < 0.1 else "'")
        if k == 's':
            return spell_bytes(self.rng, v, "'" if self.rng.random() < 0.1 else '"')
        return v


ACTS = ['{ }', '{ x = 1; }', "{ if (c == '}') f(\"{\"); /* } */ }", '{\n  a();\n  b(); // }\n}', '{ { { } } }']
VACTS = ['{ $$ = $1; }']


def model(g, nm):
    """What an export must say: (terminals, {terminal: (level, assoc)}, rules, start)."""
    k = nm.key
    return (set(k[t] for t in range(1, g.T)) | {('t', 'error')},
            {k[t]: v for t, v in g.tprec.items()},
            [(k[l], [k[x] for x in r], k[g.rprec[i]] if g.rprec[i] is not None else None) for i, (l, r) in enumerate(g.rules)],
            k[g.start])


def emit(g, nm, rng, mid=0.1, act=0.5, typed=0.3, btyacc=True, extra_decl=()):
    """(text, text without any action)."""
    T = '%union { int i; }\n' if rng.random() < typed else ''
    head = []
    lv = {}
    for t, (l, a) in g.tprec.items():
        lv.setdefault((l, a), []).append(t)
    toks = [t for t in range(1, g.T) if t != g.err]
    rng.shuffle(toks)
    for t in toks:
        k = nm.key[t][0]
        if t in g.tprec and t not in nm.num and rng.random() < 0.5 or k == 'c' and rng.random() < 0.5 and (
                t in g.tprec or any(t in r for _, r in g.rules) or t in g.rprec):
            continue
        head.append('%%token %s%s%s' % (rng.choice(['', '<i> ']) if T else '', nm.use(t), ' %d' % nm.num[t] if t in nm.num else ''))
    kw = {'L': '%left', 'R': '%right', 'N': '%nonassoc', 'P': '%precedence'}
    for (l, a) in sorted(lv):
        head.append(kw[a] + ' ' + ' '.join(nm.use(t) for t in lv[(l, a)]))
    if T:
        for n in range(g.T, g.T + g.N):
            if rng.random() < 0.3:
                head.append('%%type <i> %s' % nm.use(n))
        if btyacc and rng.random() < 0.3:
            head.append('%destructor { d($$); } <*>')
    if g.rules[0][0] != g.start or rng.random() < 0.5:
        head.append('%%start %s' % nm.use(g.start))
    pre = '%{\nint x;\n%}\n' if rng.random() < 0.3 else ''
    texts = []
    mids = 0
    for bare in (False, True):
        out = []
        prev = None
        st = rng.getstate()
        for i, (l, r) in enumerate(g.rules):
            parts = []
            r2 = list(r)
            n = len(r2)
            acts = sorted(rng.randrange(n) for _ in range(rng.choice([0, 1, 1, 2]))) if n and rng.random() < mid else []
            if not bare:
                mids += len(acts)
            for j, x in enumerate(r2):
                for q in acts:
                    if q == j and not bare:
                        parts.append(rng.choice(ACTS))
                parts.append(nm.use(x))
            if not n and rng.random() < 0.2:
                parts.append(rng.choice(['/* empty */', '%empty']))
            if g.rprec[i] is not None:
                mk = '%prec ' + nm.use(g.rprec[i])
                if not bare and n and rng.random() < 0.3:
                    parts.insert(rng.randint(0, len(parts)), mk)
                else:
                    parts.append(mk)
            if not bare and rng.random() < act:
                parts.append(rng.choice(ACTS if T or not n else ACTS + VACTS))
            body = ' '.join(parts)
            if l == prev and rng.random() < 0.85:
                out.append('\t| ' + body)
            else:
                if prev is not None and (prev == l or rng.random() < 0.95):
                    out.append('\t;')
                elif prev is not None:
                    out.append('')
                out.append('%s : %s' % (nm.use(l), body))
            prev = l
        if rng.random() < 0.9:
            out.append('\t;')
        out.append('%%')
        texts.append(pre + T + '\n'.join(head + list(extra_decl)) + '\n%%\n' + '\n'.join(out) + '\n')
        if not bare:
            rng.random()
    return texts[0], texts[1], mids


class Bad(Exception):
    pass


TOK = re.compile(r"""\s+|/\*.*?\*/|%%|%[a-z_-]+|'(?:[^'\\\n]|\\.)*'|"(?:[^"\\\n]|\\.)*"|[A-Za-z_.$][\w.$]*|::=|[:;|]|\d+""", re.S)


def tokens(text):
    p = 0
    out = []
    while p < len(text):
        m = TOK.match(text, p)
        if not m:
            raise Bad('unexpected text %r' % text[p:p + 30])
        t = m.group()
        if not t.isspace() and not t.startswith('/*'):
            out.append(t)
        p = m.end()
    return out


def parse_plain(text):
    """A plain grammar without actions -> (terminals, precedences, rules, start)."""
    return parse_tokens(tokens(text))


def parse_tokens(t):
    if t.count('%%') != 1:
        raise Bad('%d section marks' % t.count('%%'))
    i = t.index('%%')
    decl, body = t[:i], t[i + 1:]
    # rules
    raw = []
    j = 0
    lhs = None
    while j < len(body):
        x = body[j]
        if j + 1 < len(body) and body[j + 1] == ':':
            lhs = x
            raw.append([lhs, [], None])
            j += 2
        elif x == '|':
            if lhs is None:
                raise Bad('| without a left-hand side')
            raw.append([lhs, [], None])
            j += 1
        elif x == ';':
            if lhs is None:
                raise Bad('; without a rule')
            lhs = None
            j += 1
        elif x == '%prec':
            raw[-1][2] = body[j + 1]
            j += 2
        elif x[0] in ':%' or x[0].isdigit():
            raise Bad('unexpected %s' % x)
        else:
            if lhs is None:
                raise Bad('symbol %s outside a rule' % x)
            raw[-1][1].append(x)
            j += 1
    nts = set(r[0] for r in raw)
    terms, prec, start = set(), {}, None
    lvl = 0
    j = 0
    mode = None
    while j < len(decl):
        x = decl[j]
        if x[0] == '%':
            mode = x
            if x in ('%left', '%right', '%nonassoc', '%precedence'):
                lvl += 1
            elif x not in ('%token', '%start'):
                raise Bad('directive %s' % x)
        elif mode == '%start':
            start = canon(x, nts)
        elif mode == '%token':
            k = canon(x, nts)
            if k in terms:
                raise Bad('token %s declared twice' % x)
            terms.add(k)
        elif mode:
            k = canon(x, nts)
            if k in prec:
                raise Bad('two precedences for %s' % x)
            terms.add(k)
            prec[k] = (lvl, mode[1].upper())
        else:
            raise Bad('%s before any directive' % x)
        j += 1
    rules = [(canon(l, nts), [canon(x, nts) for x in r], canon(p, nts) if p else None) for l, r, p in raw]
    for _, r, p in rules:
        for x in r + ([p] if p else []):
            if x[0] != 'n':
                terms.add(x)
    return terms, prec, rules, start if start is not None else rules[0][0]


def prec_order(p):
    """Precedences with their levels replaced by ranks."""
    lv = {l: i for i, l in enumerate(sorted(set(l for l, _ in p.values())))}
    return {k: (lv[l], a) for k, (l, a) in p.items()}


def load_sql(text):
    db = sqlite3.connect(':memory:')
    db.execute('PRAGMA foreign_keys=ON')
    db.isolation_level = None
    db.executescript(text)
    bad = db.execute('PRAGMA foreign_key_check').fetchall()
    if bad:
        raise Bad('dangling references %s' % bad[:5])
    return db


def parse_sql(db, byacc=True):
    """The tables of a byacc -S file as a model."""
    sym = {}
    nts = set(n for n, t in db.execute('SELECT name, isTerminal FROM symbol') if not t)
    names = set()
    for i, n, t, fb in db.execute('SELECT id, name, isTerminal, fallback FROM symbol'):
        if n in names:
            raise Bad('symbol %s listed twice' % n)
        names.add(n)
        if fb is not None:
            raise Bad('fallback %s' % fb)
        k = canon(n, nts)
        if (k[0] == 'n') == bool(t):
            raise Bad('symbol %s has isTerminal %s' % (n, t))
        sym[i] = k
    terms = set(k for k in sym.values() if k[0] != 'n')
    prec = {sym[i]: (p, a) for i, p, a in db.execute('SELECT id, prec, assoc FROM precedence')}
    rules = []
    for i, l, p in db.execute('SELECT ruleid, lhs, prec_id FROM rule ORDER BY ruleid').fetchall():
        rhs = db.execute('SELECT pos, sym FROM rulerhs WHERE ruleid=? ORDER BY id', (i,)).fetchall()
        if [x for x, _ in rhs] != list(range(len(rhs))):
            raise Bad('positions of rule %d are %s' % (i, rhs))
        if any(s is None for _, s in rhs):
            if len(rhs) != 1:
                raise Bad('NULL in rule %d' % i)
            rhs = []
        rules.append((sym[l], [sym[s] for _, s in rhs], sym[p] if p is not None else None))
    n = db.execute('SELECT count(*) FROM rulerhs WHERE ruleid NOT IN (SELECT ruleid FROM rule)').fetchone()[0]
    if n:
        raise Bad('%d right-hand side rows without rule' % n)
    d = db.execute('SELECT start_symbol, stack_size, wildcard FROM directives').fetchall()
    if len(d) != 1 or d[0][1] is not None or d[0][2] is not None:
        raise Bad('directives %s' % d)
    return terms, prec, rules, sym[d[0][0]], set(k for k in sym.values() if k[0] == 'n')


def diff(got, want, mode=''):
    """None or the first difference of two models (terminals, prec, rules, start)."""
    gt, gp, gr, gs = got[:4]
    wt, wp, wr, ws = want[:4]
    if mode == '-u':
        wp = {}
        wr = [(l, r, None) for l, r, _ in wr]
    if gt - {('t', 'error')} != wt - {('t', 'error')}:
        return 'terminals differ: %s too many, %s missing' % (sorted(gt - wt, key=str)[:4], sorted(wt - gt, key=str)[:4])
    if prec_order(gp) != prec_order(wp):
        return 'precedences are %s, expected %s' % (sorted(prec_order(gp).items(), key=str), sorted(prec_order(wp).items(), key=str))
    for i in range(max(len(gr), len(wr))):
        a = gr[i] if i < len(gr) else None
        b = wr[i] if i < len(wr) else None
        if a != b:
            return 'rule %d is %s, expected %s' % (i + 1, a, b)
    if gs != ws:
        return 'start symbol is %s, expected %s' % (gs, ws)


def grammar(rng, kinds=('cf', 'amb', 'err')):
    k = rng.choice(list(kinds))
    if k == 'cf':
        g = None
        while g is None:
            g = gen.conflict_free(rng, rng.choice(['tiny', 'small', 'null', 'unit', 'medium', 'gadget', 'mix', 'expr', 'tiny', 'kw', 'long']))
        if rng.random() < 0.3:
            gen.prec_decls(rng, g)
    elif k == 'amb':
        g = gen.ambiguous(rng)
    else:
        g = gen.error_grammar(rng)
        if rng.random() < 0.3:
            gen.prec_decls(rng, g)
        if rng.random() < 0.15:
            # a precedence for the token error, alone or beside another one's
            g.tprec = dict(g.tprec)
            g.tprec[g.err] = rng.choice(sorted(set(g.tprec.values())) + [(max([l for l, _ in g.tprec.values()] + [0]) + 1, rng.choice('LRN'))])
    return g
