"""Reading byacc's y.output, y.dot and the tables in y.tab.c."""
import re

NAME = re.compile(r"""'(?:\\.|[^'\\])+'|"(?:\\.|[^"\\])*"|\S+""", re.S)


def names(s):
    return NAME.findall(s)


def canon(c):
    """byacc's canonical name of a one-character literal."""
    m = {7: 'a', 8: 'b', 12: 'f', 10: 'n', 13: 'r', 9: 't', 11: 'v'}
    if c in (39, 92):
        return "'\\%c'" % c
    if 32 <= c < 127:
        return "'%c'" % c
    if c in m:
        return "'\\%s'" % m[c]
    return "'\\%03o'" % c


class Bad(Exception):
    pass


def parse_output(text):
    """dict(rules=[(lhs, [rhs], prec)], states=[...], unused, nconf, totals, symbols)."""
    text = text.replace('\r', '\r')
    try:
        head, rest = text.split('\f\n', 1)
    except ValueError:
        raise Bad('no form feed between grammar and states')
    rules = []
    lhs = None
    for l in head.split('\n'):
        if not l.strip():
            continue
        n = names(l)
        if not n[0].isdigit():
            raise Bad('grammar line %r' % l)
        if int(n[0]) != len(rules):
            raise Bad('rule number %s, expected %d' % (n[0], len(rules)))
        n = n[1:]
        if n[:1] == ['|']:
            n = n[1:]
        else:
            lhs = n[0]
            if n[1:2] != [':']:
                raise Bad('grammar line %r' % l)
            n = n[2:]
        prec = None
        if len(n) >= 2 and n[-2] == '%prec':
            prec = n[-1]
            n = n[:-2]
        rules.append((lhs, n, prec))
    states = []
    out = dict(rules=rules, states=states, unused=[], nconf={}, conflicts=[])
    mode = None
    st = None
    for l in rest.split('\n'):
        if not l.strip():
            if l == '' and mode == 'items' and st['items']:
                mode = 'actions'
            continue
        m = re.match(r'state (\d+)$', l)
        if m:
            if int(m.group(1)) != len(states):
                raise Bad('state %s follows state %d' % (m.group(1), len(states) - 1))
            st = dict(items=[], shift={}, reduce={}, goto={}, default=None, accept=False, trial=[])
            states.append(st)
            mode = 'items'
            continue
        m = re.match(r'(\d+): (shift/reduce|reduce/reduce) conflict \((accept|shift (\d+)|reduce (\d+) \[(.*?)\]), reduce (\d+) \[(.*?)\]\) on (.*)$', l, re.S)
        if m:
            s, kind = int(m.group(1)), m.group(2)
            if s != len(states):
                raise Bad('conflict of state %d before state %d' % (s, len(states)))
            first = ('a',) if m.group(3) == 'accept' else ('s', int(m.group(4))) if m.group(4) else ('r', int(m.group(5)), m.group(6))
            out['conflicts'].append((s, 'sr' if kind[0] == 's' else 'rr', names(m.group(9))[0], first, int(m.group(7)), m.group(8)))
            continue
        m = re.match(r'State (\d+) contains (?:(\d+) shift/reduce conflicts?)?(?:, )?(?:(\d+) reduce/reduce conflicts?)?\.$', l)
        if m:
            out['nconf'][int(m.group(1))] = (int(m.group(2) or 0), int(m.group(3) or 0))
            mode = None
            continue
        if l == 'Rules never reduced:':
            mode = 'unused'
            continue
        m = re.match(r'(\d+) terminals, (\d+) nonterminals$', l)
        if m:
            out['nterm'], out['nnont'] = int(m.group(1)), int(m.group(2))
            mode = None
            continue
        m = re.match(r'(\d+) grammar rules, (\d+) states$', l)
        if m:
            out['nrules'], out['nstates'] = int(m.group(1)), int(m.group(2))
            continue
        if l.startswith('grammar parser') or l.startswith('symbol# value#'):
            mode = 'sym'
            out['symbols'] = []
            continue
        if mode == 'sym':
            n = names(l)
            out['symbols'].append((int(n[0]), int(n[1]), n[2]))
            continue
        n = names(l)
        if mode == 'unused':
            out['unused'].append((n[0], n[2:-1], int(n[-1].strip('()'))))
        elif mode == 'items':
            r = int(re.search(r'\((-?\d+)\)$', l).group(1))
            body = n[2:-1]
            out_item = (n[0], body, r)
            st['items'].append(out_item)
        elif mode == 'actions':
            if n[0] == '.' and n[1] == 'error':
                st['default'] = 'error'
            elif n[0] == '.' and n[1] == 'reduce':
                st['default'] = int(n[2])
            elif n[0] == '$end' and n[1] == 'accept':
                st['accept'] = True
            elif n[1] == '[trial]':
                st['trial'].append((n[0], n[2], int(n[3])))
            elif n[1] == 'shift':
                if n[0] in st['shift']:
                    raise Bad('two shifts on %s in state %d' % (n[0], len(states) - 1))
                st['shift'][n[0]] = int(n[2])
            elif n[1] == 'reduce':
                if n[0] in st['reduce'] or n[0] in st['shift']:
                    raise Bad('two actions on %s in state %d' % (n[0], len(states) - 1))
                st['reduce'][n[0]] = (int(n[2]), n[3].strip('[]') if len(n) > 3 else None)
            elif n[1] == 'goto':
                st['goto'][n[0]] = int(n[2])
            else:
                raise Bad('line %r' % l)
        else:
            raise Bad('line %r' % l)
    return out


def dot_syntax(text):
    """The whole text must be one digraph of the DOT language; returns its name and the number of statements."""
    toks = []
    p = 0
    pat = re.compile(r'\s+|/\*.*?\*/|//[^\n]*|->|[{}\[\]=;,]|[A-Za-z_][A-Za-z_0-9]*|-?(?:\.\d+|\d+(?:\.\d*)?)|"(?:[^"\\]|\\.)*"', re.S)
    while p < len(text):
        m = pat.match(text, p)
        if not m:
            raise Bad('not DOT at %r' % text[p:p + 30])
        t = m.group()
        if not t.isspace() and not t.startswith(('/*', '//')):
            toks.append(t)
        p = m.end()
    def ident(t):
        return t[0] == '"' or t[0].isalnum() or t[0] in '_.-' and t != '->'
    if len(toks) < 4 or toks[0] != 'digraph' or not ident(toks[1]) or toks[2] != '{' or toks[-1] != '}':
        raise Bad('not one digraph: %r' % toks[:4])
    i, n = 3, 0
    end = len(toks) - 1
    while i < end:
        if toks[i] == ';':
            i += 1
            continue
        if not ident(toks[i]):
            raise Bad('statement starts with %r' % toks[i])
        i += 1
        n += 1
        if toks[i] == '=':
            if not ident(toks[i + 1]):
                raise Bad('attribute value %r' % toks[i + 1])
            i += 2
            continue
        while toks[i] == '->':
            if not ident(toks[i + 1]):
                raise Bad('edge to %r' % toks[i + 1])
            i += 2
        if toks[i] == '[':
            i += 1
            while toks[i] != ']':
                if not (ident(toks[i]) and toks[i + 1] == '=' and ident(toks[i + 2])):
                    raise Bad('attribute %r' % toks[i:i + 3])
                i += 3
                if toks[i] in (',', ';'):
                    i += 1
            i += 1
    return toks[1], n


def dot_name(text):
    """None, or the graph name that is not an identifier of the DOT language; and the text with a plain name."""
    m = re.match(r'digraph (\S*) \{\n', text)
    if not m or re.fullmatch(r'[A-Za-z_]\w*|"(?:[^"\\]|\\.)*"', m.group(1)):
        return None, text
    return m.group(1), 'digraph g {\n' + text[m.end():]


def parse_dot(text):
    dot_syntax(text)
    states = {}
    trans = {}
    for m in re.finditer(r'\n\tq(\d+) \[label="((?:[^"\\]|\\.)*)"\];', text):
        lab = m.group(2)
        parts = re.split(r'(?<!\\)((?:\\\\)*)\\l', lab)
        # re-join the captured backslashes
        items = []
        cur = ''
        i = 0
        while i < len(parts):
            cur = parts[i]
            if i + 1 < len(parts):
                cur += parts[i + 1]
                items.append(cur)
            i += 2
        head = items[0]
        if head != '%s:' % m.group(1):
            raise Bad('label %r of q%s' % (head, m.group(1)))
        its = []
        for x in items[1:]:
            x = re.sub(r'\\(.)', r'\1', x)
            n = names(x)
            la = None
            if n[-1] == '}' and '{' in n[2:]:
                k = len(n) - 1 - n[::-1].index('{')
                la = n[k + 1:-1]
                n = n[:k]
            if n[1] != '->':
                raise Bad('item %r' % x)
            its.append((n[0], n[2:], la))
        states[int(m.group(1))] = its
    for m in re.finditer(r'\n\tq(\d+) -> q(\d+) \[label="((?:[^"\\]|\\.)*)"\];', text):
        trans.setdefault(int(m.group(1)), []).append((re.sub(r'\\(.)', r'\1', m.group(3)), int(m.group(2))))
    return states, trans


class Tables:
    """The packed tables of a generated parser, decoded as the driver does it."""

    def __init__(self, text, prefix='yy'):
        def arr(n):
            m = re.search(r'%s%s\[\]\s*=\s*\{([^}]*)\}' % (prefix, n), text)
            if not m:
                raise Bad('no table %s%s' % (prefix, n))
            return [int(x) for x in re.findall(r'-?\d+', m.group(1))]
        self.lhs, self.len, self.defred = arr('lhs'), arr('len'), arr('defred')
        self.dgoto, self.sindex, self.rindex, self.gindex = arr('dgoto'), arr('sindex'), arr('rindex'), arr('gindex')
        self.table, self.check = arr('table'), arr('check')
        self.size = int(re.search(r'#define YYTABLESIZE (\d+)', text).group(1))
        self.final = int(re.search(r'#define YYFINAL (\d+)', text).group(1))
        m = re.search(r'#define YYMAXTOKEN (\d+)', text)
        self.maxtok = int(m.group(1)) if m else None

    def token(self, s, code):
        """('s', state) / ('r', rule) / None, without the default reduction."""
        n = self.sindex[s]
        if n:
            n += code
            if 0 <= n <= self.size and self.check[n] == code:
                return ('s', self.table[n])
        n = self.rindex[s]
        if n:
            n += code
            if 0 <= n <= self.size and self.check[n] == code:
                return ('r', self.table[n])
        return None

    def goto(self, s, sym):
        n = self.gindex[sym]
        if n:
            n += s
            if 0 <= n <= self.size and self.check[n] == s:
                return self.table[n]
        return self.dgoto[sym]
