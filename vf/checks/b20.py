"""B20: ill-formed grammars are reported, at their line, and well-formed ones are not."""
import os, random, re
from .. import by, gen

TECH = 'runtime output monitor: random well-formed grammars with at most one planted mistake go through the sanitized generator; severity, line, quoted source line and exit status of its diagnostics are compared with the mistake made'
NOTE = 'Held on the runs observed: about 60 kinds of mistakes at random places of random grammars, and the same grammars without a mistake.'
TOOLS = ['byacc-san', 'nbyacc-san']
RULE = ('one evaluation = one grammar text, with no or exactly one mistake, whose diagnostics were compared; '
        'distinct nontrivial = distinct texts')
ASSUMES = ['a mistake inside a construct of several lines may be reported anywhere between the start of the construct and the next token']


def plan(ctx):
    k = 10 if ctx.thorough else 1
    out = [['g', i] for i in range(2600 * k)] + [['ok', i] for i in range(200 * k)]
    random.Random(ctx.seed).shuffle(out)
    return out


class T:
    """A grammar as a list of units (pieces of one or more lines)."""

    def __init__(self, rng, bt):
        self.rng, self.bt = rng, bt
        g = self.g = gen.conflict_free(rng, rng.choice(['tiny', 'small', 'expr', 'gadget', 'unit']))
        self.tok = {t: 'TK_%d' % t if rng.random() < 0.8 else "'%s'" % chr(96 + t) if t < 26 else 'TK_%d' % t for t in range(1, g.T)}
        self.named = [t for t in self.tok if self.tok[t][0] == 'T']
        self.nt = {n: 'n%d' % n for n in range(g.T, g.T + g.N)}
        self.typed = rng.random() < 0.5
        self.loc = bt and rng.random() < 0.3
        self.comments = True
        self.head = []
        if rng.random() < 0.6:
            self.head.append(rng.choice(['%{ int x; %}', '%{\n#include <stdio.h>\n%}', '%{\n\n\n/* %% { */ "%}";\n%}']))
        if self.typed:
            self.head.append(rng.choice(['%union { int i; double d; }', '%union {\n  int i;\n  double d;\n}\n']))
        if self.loc:
            self.head.append('%locations')
        self.decl = []
        tag = '<i> ' if self.typed else ''
        ts = list(self.tok)
        rng.shuffle(ts)
        for t in ts:
            if self.tok[t][0] == 'T' or self.typed:
                self.decl.append('%token ' + tag + self.tok[t])
        if self.typed:
            for n in self.nt.values():
                self.decl.append('%type <i> ' + n)
        rng.shuffle(self.decl)
        self.start = g.rules[0][0] != g.start or rng.random() < 0.3
        if self.start:
            self.decl.insert(rng.randint(0, len(self.decl)), '%start ' + self.nt[g.start])
        self.rules = []
        prev = None
        for l, r in g.rules:
            act = ''
            if rng.random() < 0.6 or self.typed and not r:
                act = rng.choice([' { $$ = %s; }', ' {\n    $$ = %s;\n  }', '\n  { /* } */ $$ = %s; "}";\n  }']) % ('$%d' % rng.randint(1, len(r)) if r else '0')
            body = ' '.join(self.tok.get(x) or self.nt[x] for x in r)
            if l == prev:
                self.rules.append('  | ' + body + act)
            else:
                self.rules.append((';\n' if prev is not None and rng.random() < 0.9 else '') + self.nt[l] + ' : ' + body + act)
            prev = l
        self.rules.append(';')
        self.tail = rng.choice(['', '%%\nint main() { return 0; }\n'])
        self.new = 0

    def gap(self):
        r = self.rng
        if r.random() < 0.6:
            return []
        if self.comments:
            return [r.choice(['', '\n', '/* c\n * d */', '// x'])]
        return [r.choice(['', '\n', '// x'])]


# each mistake: (section, unit text, severity, words, first line, last line) relative to the unit;
# None for a line means that the message names no line
def mistakes(t):
    r = t.rng
    out = []
    add = lambda *a: out.append(a)
    tok = t.tok[r.choice(t.named)] if t.named else None
    start = t.nt[t.g.start]
    ty = '<i> ' if t.typed else ''
    lits = [x for x in t.tok.values() if x[0] != 'T']
    big = r.choice(['2147483648', '99999999999', '4294967297', '1' + '0' * 30])
    if tok:
        add('decl-end', '%start ' + tok, 'e', [tok], 0, 0)
    add('pair', ('%start ' + start, r.choice(['%token ', '%left ', '%token <i> ' if t.typed else '%nonassoc ']) + start), 'e', [start], 0, 0)
    for x in ('%token <1a> X', '%type <i j> x', '%token <> X', '%left <i X Y', '%type <-> x'):
        add('decl', x, 'e', [], 0, 0)
    for x in ('%token "abc', "%token 'a", '%left "', "%token X '", '%token X "a\\\'', "%type <i> '"):
        add('decl', x + '\n', 'e', [], 0, 0)
    for x in ('%bogus', '% token X', '%tokens X', '%unio { int x; }', '%-', '%,', '%typ <i> x', '%token X %= Y'):
        add('decl', x, 'e', [], 0, 0)
    for x in ('%token X ) Y', '%left X = Y', '} ', '%start ' + start + ' | ', '%token X,Y: ', '*', '%token X + '):
        add('decl', x, 'e', [], 0, 0)
    for x in ('%%token X %s' % big, '%%expect %s' % big, '%%expect-rr %s' % big, '%expect x', '%expect', '%expect -1', '%expect-rr', '%expect , 3'):
        add('decl', x, 'e', [], 0, 0)
    for x in (r"'\400'", r"'\xg'", r"'\x100'", r"'\777'", r'"a\x"', r"'\x'", r'"\400"'):
        add('decl', '%token ' + x, 'e', [], 0, 0)
        add('rule', 'zz : ' + x + ' ;', 'e', [], 0, 0)
    for x in ('$end', '$accept', '.', '$$1', '$$123'):
        add('decl', r.choice(['%token X ', '%left ', '%type <i> ']) + x, 'e', [x], 0, 0)
        add('rule', 'zz : ' + x + ' ;', 'e', [x], 0, 0)
    add('pair' if not t.typed else 'decl', ('%union { int u; }', '%union { int u; }') if not t.typed else '%union { int u; }', 'e', [], 0, 0)
    for x in ('%start 5', "%start 'a'", '%start ;5', '%start |'):
        add('decl', x, 'e', [], 0, 0)
    for x in ('%define foo', '%define api.pure maybe', '%define api.push'):
        add('decl', x, 'e', [], 0, 0)
    add('open', '/* never closed', 'e', [], 0, 0)
    add('open', '%union {\n int z;', 'e', [], 0, 0) if not t.typed else None
    add('open', '%{ int z;', 'e', [], 0, 0)
    add('open', '%{\n /* z', 'e', [], 0, 1)
    add('decl', '%{\n "abc\n%}', 'e', [], 1, 1)
    add('decl', "%{\n\n 'abc\n%}", 'e', [], 2, 2)
    if not t.typed:
        add('decl', '%union { int a;\n char *b = "x; }\n', 'e', [], 1, 1)
    add('last', 'zz : %s { $$ = 1; {\n' % (tok or "'x'"), 'e', [], 0, 0) if not t.typed else None
    add('rule', "zz : %s\n {\n x; 'abc\n }" % (tok or "'x'"), 'e', [], 2, 2)
    add('rule', 'zz : %s {\n "abc }' % (tok or "'x'"), 'e', [], 1, 1)
    add('open-rule', 'zz : %s\n {\n /* abc }' % (tok or "'x'"), 'e', [], 2, 2)
    add('open-rule', 'zz : /* abc', 'e', [], 0, 0)
    if t.bt:
        add('open', '%%destructor {\n f($$); <* %s' % '', 'e', [], 0, 0)
        add('open', '%code {\n int z;', 'e', [], 0, 10 ** 6)
        add('decl', '%type <i> zz(foo)', 'e', [], 0, 0)
        add('decl', '%type <i> zz(<i> x)', 'e', [], 0, 0)
        if not t.loc:
            for x in ('@$', '@1', '@-1'):
                add('rule', 'zz : %s {\n x(%s); } ;' % (tok or "'x'", x), 'E', [], 1, 1) if not t.typed else None
        else:
            add('rule', 'zz : %s {\n x(@9); }' % (tok or "'x'"), 'w', ['@9'], 1, 1)
        add('pair', ('%destructor { a($$); } ' + start, '%destructor { b($$); } ' + start), 'w', [], 0, 0)
        if t.typed:
            add('pair', ('%destructor { a($$); } <i>', '%destructor { b($$); } <i>'), 'w', [], 0, 0)
        add('pair', ('%destructor { a($$); } <*>', '%destructor { b($$); } <*>'), 'w', [], 0, 0)
        add('pair', ('%destructor { a($$); } <>', '%destructor { b($$); } <>'), 'w', [], 0, 0)
    # rules
    if tok:
        add('rule', tok + ' : zq ; zq : ', 'e', [], 0, 0)
    add('rule', "'q' : ", 'e', [], 0, 0)
    add('first', 'zz %s ;' % (tok or "'x'"), 'e', [], 0, 0)
    add('first', '%%', 'e', [], 0, 0)
    add('first', r.choice(['5', '| x', '{ x; }', "'a' : x", '%prec X', '%token X']), 'e', [], 0, 0)
    for x in ('%prec 5', '%prec |', '%bogus', '%precc X', ')', '>', '%token X', '%prec { x; }', '5', '*'):
        add('rule', 'zz : %s %s ;' % (tok or "'x'", x), 'e', [], 0, 0)
    add('decl', '%start nosuch', 'e', ['nosuch'], None, None) if not t.start else None
    if t.typed:
        for x, w in (('$$ = 1;', []), ('$0', []), ('$-1', []), ('$7', ['$7']), ('$00', [])):
            add('rule', 'zz : %s {\n\n %s; }' % (tok or lits[0], x), 'e', w, 2, 2)
        add('rule', 'zz : UNT_1 %s { x($2); } { x($2);\n x($1); }' % (tok or lits[0]), 'e', ['UNT_1', '$1'], 1, 1)
        add('rule', 'zz : UNT_1 { x($1); }', 'e', ['UNT_1', '$1'], 0, 0)
        if tok:
            add('decl-end', '%token <d> ' + tok, 'W', [tok], 0, 0)
        add('decl-end', '%type <d> ' + start, 'W', [start], 0, 0)
        add('dflt', ('%type <d> zz', 'zz : %s\n' % (tok or lits[0])), 'w', ['zz'], 0, 99)
        add('dflt', ('%type <d> zz', 'zz :\n'), 'w', ['zz'], 0, 99)
        # the default action copies the first value: the types of the others do not matter
        x = tok or lits[0]
        add('dflt', ('%type <d> zz zy', 'zz : %s zy ;\nzy : { $$ = 0; }\n' % x), 'w', ['zz'], 0, 99)
        add('dflt', ('%type <d> zz zy', 'zz : %s %s zy ;\nzy : { $$ = 0; }\n' % (x, x)), 'w', ['zz'], 0, 99)
    else:
        add('rule', 'zz : %s %s {\n x($3); }' % (tok or "'x'", tok or "'x'"), 'w', ['$3'], 1, 1)
        add('rule', 'zz : { x($1); } %s ' % (tok or "'x'"), 'w', ['$1'], 0, 0)
        add('rule', 'zz : %s { x($2); } %s { x; }' % (tok or "'x'", tok or "'x'"), 'w', ['$2'], 0, 0)
        add('rule', 'zz : %s {\n x($99999999999); }' % (tok or "'x'"), 'e', [], 1, 1)
    for x in ('$<1>1', '$<i>*', '$<i', '$<>$', '$<i>', '$<i>-x'):
        add('rule', 'zz : %s { y;\n %s; }' % (tok or "'x'" if not t.typed else tok or lits[0], x), 'e', [], 1, 1)
    if tok:
        add('pair', ('%left ' + tok, '%right ' + tok), 'w', [tok], 0, 0)
        add('pair', ('%left ' + tok, '%left ' + tok), 'w', [tok], 0, 0)
        add('pair', ('%token ' + tok + ' 300', '%token ' + tok + ' 301'), 'w', [tok], 0, 0)
        add('pair', ('%left PA\n%left PB', None, 'zz : %s %%prec PA\n %%prec PB ;' % tok), 'w', [], 1, 1)
        add('decl', "%token 'x' 300", 'w', ["'x'"], 0, 0)
        # the first mark may be of a token that has no precedence, the second too; a block may stand between them
        a, b = t.rng.choice([('PZ', 'PB'), ('PB', 'PZ'), ("'~'", 'PB'), ('PB', "'~'"), ('PA', 'PB'), ('PB', 'PA')])
        add('pair', ('%token PZ\n%left PA\n%right PB', None, 'zz : %s %%prec %s\n %s%%prec %s ;' % (tok, a, t.rng.choice(['', '', '{ x; } ']), b)), 'w', [], 1, 1)
    others = [n for n in t.nt.values() if n != start]
    if others:
        add('pair', ('%start ' + start, '%start ' + others[0]), 'W', [], 0, 0)
    add('rule', 'zz : %s zq ' % (tok or "'x'"), 'w', ['zq'], None, None) if not t.typed else None
    return out


DIAG = re.compile(r'^\S+: ([ewf]) - (?:line (\d+) of  ?"(.*?)", )?(.*)$')


def case(ctx, c):
    rng = c.rng
    bt = rng.random() < 0.7
    t = T(rng, bt)
    while not t.tok:
        t = T(rng, bt)
    m = None
    if c.spec[0] == 'g':
        m = rng.choice(mistakes(t))
        sec, text, sev, words, lo, hi = m
        if sec in ('open', 'open-rule'):
            t.comments = False
        t.rules = [x.replace('/* } */', '') for x in t.rules]
        if sec == 'pair' and isinstance(text, tuple) and text[0].startswith('%start'):
            t.decl = [x for x in t.decl if not x.startswith('%start')]
        if sec == 'pair' and '301' in str(text):
            t.decl = [x for x in t.decl if not x.startswith('%token')] + [x for x in t.decl if x.startswith('%token')]
    units = []          # (text, is the mistake)
    put = lambda x, f=False: units.append((x, f))
    extra = None
    D = list(t.decl)
    if m:
        if sec in ('decl', 'open'):
            D.insert(rng.randint(0, len(D)), (text,))
        elif sec == 'decl-end':
            D.append((text,))
        elif sec == 'pair':
            k = rng.randint(0, len(D))
            D.insert(k, text[0])
            if text[1]:
                D.insert(rng.randint(k + 1, len(D)), (text[1],))
        elif sec == 'dflt':
            D.insert(rng.randint(0, len(D)), text[0])
    for x in t.head + D:
        for y in t.gap():
            put(y)
        put(x[0] if isinstance(x, tuple) else x, isinstance(x, tuple))
    for y in t.gap():
        put(y)
    put('%%')
    R = list(t.rules)
    if m and sec == 'first':
        R.insert(0, (text,))
    elif m and sec in ('rule', 'open-rule', 'dflt') or m and sec == 'pair' and len(text) == 3:
        tx = text if isinstance(text, str) else text[-1]
        spots = [i for i, x in enumerate(R) if i and not x.lstrip(';\n').startswith(('  |', ' |', '|'))]
        k = rng.choice(spots) if spots else len(R)
        lead = ';' if k < len(R) and not R[k].startswith(';') else ''
        if lead:
            R.insert(k, ';')
            k += 1
            R.insert(k, (tx,))
        else:
            R.insert(k, ';')
            R.insert(k + 1, (tx,))
        extra = True
    if m and sec == 'last':
        R += [';', (text,)]
    for x in R:
        for y in t.gap() if units[-1][0] != '%%' or not (m and sec == 'first') else []:
            put(y)
        put(x[0] if isinstance(x, tuple) else x, isinstance(x, tuple))
    text_ = ''
    at = None
    for x, f in units:
        if f:
            at = text_.count('\n') + 1
        text_ += x + '\n'
    text_ += t.tail if not (m and sec.startswith('open')) else ''
    c.write('g.y', text_)
    opts = [o for o in ('-d', '-v', '-t', '-l', '-g', '-r', '-P') if rng.random() < 0.12]
    r = by.run_byacc(c, 'byacc' if bt else 'nbyacc', opts)
    files = {'g.y': text_, 'cmd': '%s %s g.y\n' % ('byacc' if bt else 'nbyacc', ' '.join(opts)), 'stderr': r.err}
    if r.slow:
        return c.inconclusive('slow')
    c.evals += 1
    c.saw(text_)
    if r.bad():
        return c.violation('generator', '%s: %s' % (opts, r.bad()), files)
    lines = r.etext.split('\n')
    ds = []
    for k, ln in enumerate(lines):
        d = DIAG.match(ln)
        if d:
            ds.append((d.group(1), int(d.group(2)) if d.group(2) else None, d.group(3), d.group(4), lines[k + 1] if k + 1 < len(lines) else ''))
    if not m:
        if r.rc or ds or not os.path.exists(c.path('y.tab.c')):
            return c.violation('complaint', 'a well-formed grammar is not accepted without a diagnostic: exit %s\n%s' % (r.rc, r.etext[:800]), files)
        c.count('well-formed')
        return
    what = '%s: %r (line %s)' % (sec, text, at)
    kind = sev.lower()
    got = [d for d in ds if d[0] == kind]
    if not got:
        return c.violation('silent', 'no %s for the mistake %s: exit %s\n%s' % ('error' if kind == 'e' else 'warning', what, r.rc, r.etext[:800]), files)
    if sev == 'e' and r.rc == 0 or sev == 'w' and r.rc != 0:
        return c.violation('status', 'exit status %s for the mistake %s\n%s' % (r.rc, what, r.etext[:800]), files)
    if len(ds) != 1 and sev in 'ew':
        return c.violation('more', '%d diagnostics for the one mistake %s\n%s' % (len(ds), what, r.etext[:800]), files)
    d = got[0]
    n = text_.count('\n')
    if lo is None:
        if d[1] is not None:
            return c.violation('line', 'line %d named for %s' % (d[1], what), files)
    elif d[1] is None or d[2] != 'g.y' or not at + lo <= d[1] <= min(at + hi, n + 1):
        return c.violation('line', 'the diagnostic names line %s of %s for the mistake %s\n%s' % (d[1], d[2], what, r.etext[:800]), files)
    if any(w not in d[3] for w in words):
        return c.violation('name', 'the diagnostic does not name %s for the mistake %s\n%s' % (words, what, r.etext[:800]), files)
    if d[1] is not None and d[4].strip() and d[1] <= n and not re.match(r'\S+-san: ', d[4]):
        src = text_.split('\n')[d[1] - 1]
        c.count('source lines quoted')
        if d[4].strip() != src.strip():
            return c.violation('quote', 'the diagnostic for line %d shows the line %r, but that is %r' % (d[1], d[4], src), files)
    c.count('mistakes: ' + sec)
    c.count('errors' if kind == 'e' else 'warnings')
    c.sample(dict(mistake=what, diagnostic=lines[0][:200]))
