"""B18: layout, comments and synonymous notation do not change the parser."""
import random, re
from .. import by, bplain, gen

TECH = 'runtime output monitor: two random spellings of one grammar go through the sanitized generator, and the parser, header, report and messages are compared byte by byte'
NOTE = ('Held on the pairs observed: white space, comments, line layout, repeated left-hand sides, keyword and literal synonyms, redundant declarations, separators and the '
        'marks %empty and %prec in different places; actions and copied code are kept as they are.')
TOOLS = ['byacc-san', 'nbyacc-san']
RULE = 'one evaluation = one pair of spellings whose generated files agree; distinct nontrivial = distinct pairs of different texts'
ASSUMES = []


def plan(ctx):
    k = 10 if ctx.thorough else 1
    out = [['g', i] for i in range(1800 * k)] + [['args', i] for i in range(100 * k)]
    random.Random(ctx.seed).shuffle(out)
    return [['known', 'args-blanks']] + out


COMMENTS = ['/**/', '/***/', '/* c */', '/*/ */', "/* ' */", '/* " */', '/* { } */', '/* %% */', '/* %{ */', '/* a : b ; */', '/* // */', '/*\n*/', '/*\n * x\n %%\n */', '/* \\ */', '/* ' + 'long ' * 30 + '*/',
            '/* $$ = $1; */', '/*\r\n*/', "/* don't */", '/** x **/', '/*' + '\n' * 5 + '*/']
LINECOM = ['//', '// c', "// '", '// "', '// { %%', '// /*', '// ' + 'x' * 120, '// a : b ;', '//\\', '/////']


class Layout:
    def __init__(self, rng):
        self.rng = rng
        self.style = rng.choice(['plain', 'wild', 'wild', 'oneline', 'lines', 'tight', 'cr'])

    def gap(self, need, nl=False):
        """White space between two tokens; need: something must separate them."""
        rng, s = self.rng, self.style
        out = ''
        if s == 'plain':
            return '\n' if nl else ' '
        if s == 'tight':
            if not need:
                return '' if rng.random() < 0.8 else rng.choice([' ', '/**/'])
            return rng.choice([' ', '\t', '\n', '/**/', '/*x*/', '\f', '//\n'])
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3]) if s == 'wild' else 1):
            p = rng.random()
            if s == 'oneline':
                out += rng.choice([' ', '  ', '\t', '/* c */', ' ' * 40, '/*x*/'])
            elif s == 'lines':
                out += rng.choice(['\n', '\n', '\n\n', ' \n', '\n  ', '// c\n'])
            elif s == 'cr':
                out += rng.choice([' ', '\r\n', '\t\r\n', ' \r\n ', '/* x */\r\n', '// y\r\n', ' '])
            elif p < 0.35:
                out += rng.choice([' ', '  ', '\t', ' \t ', '\f', '\v', '\r', ' ' * 120])
            elif p < 0.6:
                out += rng.choice(['\n', '\n\n', '\n\t', '\r\n', '\n' * 6])
            elif p < 0.85:
                out += rng.choice(COMMENTS)
            else:
                out += rng.choice(LINECOM) + '\n'
        if need and not out:
            out = ' '
        return out


def ident_end(x):
    return re.match(r'[\w.$]', x[-1:]) is not None


def ident_start(x):
    return re.match(r'[\w.$]', x[:1]) is not None


def join(L, toks):
    out = ''
    prev = ''
    for t in toks:
        if t is None:               # a line of its own follows
            out += L.gap(False, True)
            if not out.endswith('\n'):
                out += '\n'
            prev = ''
            continue
        raw = t[0] == '\0'
        if raw:
            t = t[1:]
        need = bool(prev) and (ident_end(prev) and (ident_start(t) or t[0] == '-') or prev[-1:] in '%\\')
        if prev and prev[-1] == '/' and t[0] in '/*':
            need = True
        out += L.gap(need)
        out += t
        prev = t
    return out


KW = {'token': ['%token', '%term', '%TOKEN', '%Token', '%0', '\\token', '\\0'],
      'left': ['%left', '%LEFT', '%<', '\\left'],
      'right': ['%right', '%Right', '%>', '\\>'],
      'nonassoc': ['%nonassoc', '%binary', '%2', '%NonAssoc'],
      'precedence': ['%precedence', '%PRECEDENCE'],
      'type': ['%type', '%nterm', '%TYPE', '\\type'],
      'start': ['%start', '%START', '\\start'],
      'expect': ['%expect', '%EXPECT'],
      'expect-rr': ['%expect-rr', '%expect_rr'],
      'pure': ['%pure-parser', '%pure_parser', '%define api.pure', '%define api.pure true', '%Pure-Parser', '%define /* x */ api.pure // y\n', '%define\tapi.pure/**/full'],
      'table': ['%token-table', '%token_table'],
      'debug': ['%debug', '%DEBUG'],
      'noop': ['%yacc', '%error-verbose', '%error_verbose'],
      'locations': ['%locations', '%LOCATIONS'],
      'mark': ['%%', '%%', '%%', '\\%', '%\\', '\\\\']}
ASSOC = {'L': 'left', 'R': 'right', 'N': 'nonassoc', 'P': 'precedence'}


class Model:
    """The fixed part of a grammar: what both spellings say."""

    def __init__(self, rng, btyacc):
        self.g = g = bplain.grammar(rng)
        self.nm = bplain.Names(g, rng)
        self.typed = rng.random() < 0.4
        self.tags = {}
        toks = [t for t in range(1, g.T) if t != g.err]
        rng.shuffle(toks)
        if self.typed:
            for x in range(1, g.T + g.N):
                if x != g.err and rng.random() < 0.5:
                    self.tags[x] = rng.choice(['i', 'd', 'node'])
        # named tokens are always declared, in this order
        self.decl = [t for t in toks if self.nm.key[t][0] != 'c' or rng.random() < 0.5 or t in self.tags]
        lv = {}
        for t, v in g.tprec.items():
            lv.setdefault(v, []).append(t)
        self.levels = [(k, lv[k]) for k in sorted(lv)]
        self.types = [x for x in range(g.T, g.T + g.N) if x in self.tags]
        self.start = g.rules[0][0] != g.start
        self.prologue = rng.choice([None, '%{\nint x;\n%}', "%{\n#include <stdio.h>\n/* '\" */\n%}"])
        self.dest = []
        if btyacc and rng.random() < 0.3 and self.typed:
            self.dest = [rng.choice(['{ free($$); }', '{ d($$); /* } */ }']) for _ in range(2)]
        self.acts, self.mids = [], []
        for l, r in g.rules:
            ok = lambda x: not self.typed or x in self.tags
            mids = [(j, rng.choice(bplain.ACTS)) for j in range(len(r)) if rng.random() < 0.06]
            use = [('$%d' % (j + 1 + sum(q <= j for q, _ in mids))) for j, x in enumerate(r) if ok(x) and x != g.err]
            k = rng.random()
            if k < 0.45:
                self.acts.append(None)
            elif k < 0.7 and use and ok(l):
                self.acts.append('{ $$ = f(%s); }' % ', '.join(use))
            else:
                self.acts.append(rng.choice(bplain.ACTS))
            self.mids.append(mids)
        self.flags = [x for x in ('pure', 'table', 'debug') if rng.random() < 0.12] + (['locations'] if btyacc and rng.random() < 0.1 else [])
        self.trailer = rng.choice([None, None, 'int main(void) { return yyparse(); }\n'])

    def spell(self, rng):
        g, nm = self.g, self.nm
        L = Layout(rng)
        kw = lambda k: rng.choice(KW[k]) if L.style != 'plain' else KW[k][0]
        noisy = L.style != 'plain'
        out = []
        seen = []

        def sep():
            # commas and semicolons between declarations and names mean nothing
            return [rng.choice([',', ';', ',,'])] if noisy and rng.random() < 0.12 else []

        def redundant():
            if not noisy or not seen or rng.random() > 0.3:
                return
            x = rng.choice(seen)
            if x >= g.T or x in self.tags and rng.random() < 0.5:
                out.extend([kw('type')] + (['<%s>' % self.tags[x]] if x in self.tags else []) + [nm.use(x)] + sep())
            else:
                out.extend([kw('token')] + (['<%s>' % self.tags[x]] if x in self.tags and rng.random() < 0.5 else []) + [nm.use(x)]
                           + (['%d' % nm.num[x]] if x in nm.num and rng.random() < 0.5 else []) + sep())

        def noop():
            if noisy and rng.random() < 0.1:
                out.append(rng.choice(KW['noop']))
            if noisy and rng.random() < 0.05:
                out.append(';')
        first = list(self.flags)
        late = []
        if noisy:
            rng.shuffle(first)
            late = [x for x in first if rng.random() < 0.5]
            first = [x for x in first if x not in late]
        ends = lambda k: out.append(k) or (out.append(None) if k.startswith('%define') else None)
        for k in first:
            ends(kw(k))
        if self.prologue:
            out.append(None)
            out.append('\0' + self.prologue)
        if self.typed:
            out.append('\0%union { int i; double d; struct n *node; }')
        noop()
        i = 0
        while i < len(self.decl):
            t = self.decl[i]
            tag = self.tags.get(t)
            out.append(kw('token'))
            by_type = tag and noisy and rng.random() < 0.2
            if tag and not by_type:
                out.append(self.tag(rng, tag, noisy))
            group = []
            while True:
                out.append(nm.use(t))
                group.append(t)
                seen.append(t)
                if t in nm.num:
                    out.append(('0' * rng.choice([0, 0, 1, 3]) if noisy else '') + str(nm.num[t]))
                out += sep()
                i += 1
                if i < len(self.decl) and self.tags.get(self.decl[i]) == tag and rng.random() < 0.6:
                    t = self.decl[i]
                    continue
                break
            if by_type:
                out += [kw('type'), self.tag(rng, tag, noisy)] + [nm.use(x) for x in group]
            noop()
            redundant()
        for (lv, a), ts in self.levels:
            out.append(kw(ASSOC[a]))
            for t in ts:
                out.append(nm.use(t))
                out += sep()
                seen.append(t)
            noop()
            redundant()
        i = 0
        while i < len(self.types):
            tag = self.tags[self.types[i]]
            out += [kw('type'), self.tag(rng, tag, noisy)]
            while True:
                out.append(nm.use(self.types[i]))
                seen.append(self.types[i])
                out += sep()
                i += 1
                if not (i < len(self.types) and self.tags[self.types[i]] == tag and rng.random() < 0.6):
                    break
            redundant()
        if self.dest:
            out += ['%destructor', '\0' + self.dest[0], '<i>', '<node>', '%destructor', '\0' + self.dest[1]]
            out += ['<*>', '<>']
        for k in late:
            ends(kw(k))
        st = [kw('start'), nm.use(g.start)]
        here = self.start or noisy and rng.random() < 0.3
        if here:
            out += st
            if noisy and rng.random() < 0.2:
                out += [kw('start'), nm.use(g.start)]
        redundant()
        out.append(kw('mark'))
        prev = None
        for i, (l, r) in enumerate(g.rules):
            again = l == prev and noisy and rng.random() < 0.3
            if l == prev and not again:
                out.append('|')
            else:
                if prev is not None:
                    out += [';'] * (rng.choice([0, 1, 1, 2]) if noisy else 1)
                out += [nm.use(l), ':']
            prev = l
            prec = None
            if g.rprec[i] is not None:
                prec = [rng.choice(['%prec', '%PREC', '%=', '%Prec', '\\prec']) if noisy else '%prec', nm.use(g.rprec[i])]
            for j, x in enumerate(r):
                for q, a in self.mids[i]:
                    if q == j:
                        out.append('\0' + self.act(rng, a, noisy))
                out.append(nm.use(x))
            if not r and noisy and rng.random() < 0.3:
                out.append(rng.choice(['%empty', '%EMPTY', '\\empty']))
            after = prec and self.acts[i] and noisy and rng.random() < 0.4
            if prec and not after:
                out += prec
            if self.acts[i]:
                out.append('\0' + self.act(rng, self.acts[i], noisy))
            if after:
                out += prec
        if not noisy or rng.random() < 0.8:
            out.append(';')
        tail = ''
        if self.trailer:
            tail = rng.choice(KW['mark'] if noisy else ['%%']) + '\n' + self.trailer
        elif noisy and rng.random() < 0.6:
            tail = kw('mark') + rng.choice(['', '\n'])
        text = join(L, out) + L.gap(True, True)
        if not self.trailer and not tail and rng.random() < 0.5:
            text = text.rstrip()
        return (L.gap(False) if noisy else '') + text + tail, L.style

    def tag(self, rng, t, noisy):
        return '<%s>' % t if not noisy or rng.random() < 0.7 else rng.choice(['< %s >', '<%s >', '<\t%s>']) % t

    def act(self, rng, a, noisy):
        return a if not noisy or rng.random() < 0.8 else rng.choice(['=', '= ', '=\n']) + a


def outputs(c, variant, opts, name, text):
    import os
    d = c.path(name)
    os.makedirs(d)
    c.write(name + '/g.y', text.encode('latin-1'))
    r = by.run_byacc(c, variant, opts, cwd=d)
    out = {}
    for x in sorted(os.listdir(d)):
        if x != 'g.y':
            out[x] = open(os.path.join(d, x), 'rb').read()
    return r, out


def compare(c, variant, opts, texts, key):
    res = [outputs(c, variant, opts, 'd%d' % i, t) for i, t in enumerate(texts)]
    files = {'a.y': texts[0].encode('latin-1'), 'b.y': texts[1].encode('latin-1'), 'cmd': '%s %s a.y; %s %s b.y\n' % ((variant, ' '.join(opts)) * 2)}
    if any(r.slow for r, _ in res):
        return c.inconclusive('generator slow')
    for (r, o), n in zip(res, 'ab'):
        files['stderr-' + n] = r.err
        if r.bad() or r.rc:
            return c.violation(key, '%s %s on %s.y: %s (exit %s), %s\n%s' % (variant, opts, n, r.bad() or 'fails', r.rc,
                               'the other spelling is accepted' if any(q.rc == 0 for q, _ in res) else 'both fail', r.etext[:800]), files)
    ra, rb = res
    msg = None
    strip = lambda e: sorted(x for x in re.sub(r'(?m)^.*?: (w - )?(line \d+ of "g\.y", )?', '', e).split('\n'))
    if strip(ra[0].etext) != strip(rb[0].etext):
        msg = 'the messages differ:\n%s\n%s' % (ra[0].etext[:500], rb[0].etext[:500])
    for x in sorted(set(ra[1]) | set(rb[1])):
        a, b = ra[1].get(x, b''), rb[1].get(x, b'')
        if a != b and re.search(r'[.][ci]$', x):
            # the white space between '=' and an action is copied with it
            a, b = (re.sub(rb'\n[ \t\n]*(?=[{])', b'\n', q) for q in (a, b))
        if a != b and not msg:
            la, lb = a.split(b'\n'), b.split(b'\n')
            k = next((i for i, (p, q) in enumerate(zip(la, lb)) if p != q), min(len(la), len(lb)))
            msg = '%s differs at line %d: %r and %r' % (x, k + 1, la[k:k + 1], lb[k:k + 1])
            files['a-' + x], files['b-' + x] = a, b
    if msg:
        return c.violation(key, '%s %s: %s' % (variant, ' '.join(opts), msg), files)
    c.evals += 1
    c.count('pairs')
    c.count('bytes compared', sum(map(len, ra[1].values())))
    if texts[0] != texts[1]:
        c.saw(texts[0], texts[1])
    return True


KNOWN = ('%%token <i> A B\n%%type <i> s x(<i>)\n%%union { int i; }\n%%%%\ns : A x(%s) B { $$ = $2; } ;\nx($n) : A { $$ = $n; } ;\n')


def case(ctx, c):
    rng = c.rng
    variant = 'byacc' if rng.random() < 0.6 else 'nbyacc'
    if c.spec[0] == 'known':
        return compare(c, 'byacc', ['-l', '-d', '-v'], [KNOWN % '$1', KNOWN % ' $1 '], c.spec[1])
    if c.spec[0] == 'args':
        return args(c)
    m = Model(rng, variant == 'byacc')
    texts = [m.spell(rng) for _ in range(2)]
    opts = ['-l'] + [o for o, p in (('-d', 0.7), ('-v', 0.7), ('-r', 0.1), ('-i', 0.1), ('-g', 0.1), ('-e', 0.1), ('-E', 0.1), ('-n', 0.1), ('-S', 0.1), ('-u', 0.05), ('-z', 0.05), ('-t', 0.1)) if rng.random() < p]
    if variant == 'byacc' and rng.random() < 0.1 and not any(m.mids):
        opts.append('-B')
    if compare(c, variant, opts, [t for t, _ in texts], 'differ'):
        for _, s in texts:
            c.count('spellings: ' + s)
        c.sample(dict(options=opts, a=texts[0][0][:300], b=texts[1][0][:300]))


def args(c):
    """Inherited attributes and layouts outside their lists."""
    rng = c.rng
    n = rng.randint(1, 3)
    out = []
    vals = [rng.choice(['$1', '$<i>1', 'n+1', '"(,)"[0]', '3']) for _ in range(n)]
    for _ in range(2):
        L = Layout(rng)
        t = [rng.choice(KW['token']), '<i>', 'A', 'B', rng.choice(KW['type']), '<i>', 's', 'x', '(%s)' % ','.join(['<i>'] * n), '\0%union { int i; }', '%%',
             's', ':', 'A', 'x', '(%s)' % ','.join(vals), 'B', '\0{ $$ = $2; }', ';', 'x', '(%s)' % ','.join('$a%d' % i for i in range(n)), ':', 'A', '\0{ $$ = $a0; }']
        out.append(join(L, t) + '\n')
    compare(c, 'byacc', ['-l', '-d', '-v'], out, 'args')
