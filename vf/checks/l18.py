"""L18: lemon reports ill-formed grammars, at their line, and only those."""
import os
import random
import re
from .. import gen, le

TECH = 'runtime output monitor: random well-formed grammars with at most one planted mistake go through the sanitized generator; the messages, their file and line and the exit status are compared with the mistake made'
NOTE = 'Held on the runs observed: about 150 mistakes at random places of random grammars in random layouts, and the same grammars without a mistake.'
TOOLS = ['lemon-san', 'lempar.c']
RULE = ('one evaluation = one grammar text, with no or exactly one mistake, whose messages were compared; '
        'distinct nontrivial = distinct texts')
ASSUMES = ['the line of a syntax mistake is that of the token at which the grammar stops to be well-formed, the line of a mistake in a rule as a whole is that of its final period',
           'further messages may follow that of a mistake']


def plan(ctx):
    k = 10 if ctx.thorough else 1
    out = [['g', i] for i in range(2600 * k)] + [['ok', i] for i in range(300 * k)]
    random.Random(ctx.seed).shuffle(out)
    return out


CODE = ['{ x(); }', '{\n  x();\n}', '{ /* } */ x("}"); }', "{\n  if( c=='}' ){ x(); } // }\n}", '{ /* a\n } b */ { {\n} } }', '{"\\"}"\n}', "{ '\\'' ; }", '{}', "{ // it's\n}"]


class T:
    """A grammar as a list of units, each a text whose blanks may become any layout (~ is a blank that stays)."""

    def __init__(self, rng):
        self.rng = rng
        g = self.g = gen.conflict_free(rng, rng.choice(['tiny', 'small', 'expr', 'gadget', 'unit']))
        self.tok = {t: 'T%s' % rng.choice(['K_%d', 'a%d', '%d']) % t for t in range(1, g.T)}
        self.nt = {n: 'n%d' % n for n in range(g.T, g.T + g.N)}
        self.code = lambda: rng.choice(CODE).replace(' ', '~')
        ts = list(self.tok.values())
        rng.shuffle(ts)
        d = self.decl = []
        if rng.random() < 0.5:
            d.append('%token ' + ' '.join(ts) + ' .')
        if rng.random() < 0.3:
            d.append('%' + rng.choice(['left', 'right', 'nonassoc']) + ' ' + ' '.join(ts[:2]) + ' .')
            self.prec = ts[:2]
        else:
            self.prec = []
        if rng.random() < 0.5:
            d.append('%include ' + self.code())
        if rng.random() < 0.3:
            d.append('%name ' + rng.choice(['Foo', '{Foo}', '"Foo"']))
        if rng.random() < 0.3:
            d.append('%token_type ' + rng.choice(['int', '{int}', '{const~char~*}', '"int"']))
        if rng.random() < 0.3:
            d.append('%type ' + rng.choice(list(self.nt.values())) + ' ' + rng.choice(['{int}', '{double}']))
        if rng.random() < 0.3:
            d.append('%destructor ' + rng.choice(list(self.nt.values())) + ' ' + self.code())
        if rng.random() < 0.3:
            d.append('%syntax_error ' + self.code())
        if rng.random() < 0.2:
            d.append('%extra_argument {int~*p}')
        if rng.random() < 0.2:
            d.append('%code ' + self.code())
        if rng.random() < 0.2 and len(ts) > 1:
            d.append('%fallback ' + ts[0] + ' ' + ts[1] + ' .')
        if ts and rng.random() < 0.2:
            d.append('%token_class zclass ' + rng.choice(['%s', '%s ZQ', 'ZQ|%s', 'ZP /%s']) % ts[0] + ' .')
        if rng.random() < 0.2:
            d.append('%stack_size ' + rng.choice(['100', '{0}', '"50"']))
        if rng.random() < 0.15:
            d.append('%expect 0')
        rng.shuffle(d)
        self.start = 'start'
        if rng.random() < 0.3:
            d.insert(rng.randint(0, len(d)), '%start_symbol start')
        self.rules = []                       # [lhs, lhs label, [(symbol, label)], mark, code]
        self.rules.append(['start', None, [(self.nt[g.start], None)], None, self.code() if rng.random() < 0.5 else None])
        for l, r in g.rules:
            la, lab, code = None, [None] * len(r), None
            p = rng.random()
            if p < 0.4:
                code = self.code()
            elif p < 0.7:
                uses = []
                if rng.random() < 0.5:
                    la = rng.choice(['A', 'Out', 'r_1'])
                    uses.append(la)
                for i in range(len(r)):
                    if rng.random() < 0.4:
                        lab[i] = 'L%d' % i
                        uses.append(rng.choice(['', '@']) + lab[i])
                code = '{\n' + ''.join('use(%s);\n' % u for u in uses) + '}'
            self.rules.append([self.nt[l], la, list(zip([self.tok.get(x) or self.nt[x] for x in r], lab)), None, code])

    def rule(self, r):
        if isinstance(r, str):
            return r
        lhs, la, rhs, mark, code = r
        return '%s%s ::= %s . %s %s' % (lhs, ' ( %s )' % la if la else '', ' '.join(s + (' ( %s )' % a if a else '') for s, a in rhs),
                                        '[ %s ]' % mark if mark else '', code or '')


# Where the lines are judged, the text has a mark @@ just before the token whose line the message names.
def mistakes(t, opts):
    """[(section, text, words)]: sections top (anywhere behind a rule), decl (anywhere), first, last, rule (index, changed rule), line (a line of its own)."""
    r = t.rng
    out = []
    n1 = r.choice(list(t.nt.values()))
    ta = r.choice(list(t.tok.values()))
    code = t.code()
    def add(sec, *texts, w=()):
        for x in texts:
            out.append((sec, x, list(w)))
    u = '-u' in opts
    add('decl', '%token_class cc ZA ZB . @@cc ::= ZA .', w=['cc'])
    add('first', '@@' + code)
    add('top', 'zz ::= ZA . {x} @@{y}', 'zz ::= ZA . {x} [ ZA ] @@{y}', 'zz ::= ZA . ' + code + ' @@' + code)
    for x in ('ZA', ';', '57', '"str"', '.', '::=', ')', '(', '|ZX', '/ZX', ']', ',', '-', '$', '&', '_a', "'", '\\', '#', '}'):
        add('decl', '@@' + x + ' ', w=[x[:1]])
    add('decl', '@@ZA ::= ZB .', w=['ZA'])
    add('first', '[ @@ZA ]', w=['ZA'])
    add('top', '[ @@zz ]', '[ @@. ]', '[ @@5 ]', 'zz ::= ZA . [ @@zz ]', 'zz ::= ZA . [ @@{x} ]')
    add('top', 'zz ::= ZA . [ ZA @@.', 'zz ::= ZA . [ ZA @@ZB', 'zz ::= ZA . [ ZA @@)')
    if not u:
        add('top', 'zz ::= ZA . [ ZA ] [ @@ZB ]', 'zz ::= ZA . {x} [ ZA ] [ @@ZA ]')
        add('decl', '%left ZA . %right @@ZA .', '%nonassoc ZA ZB @@ZA .', '%precedence ZA . %left ZB @@ZA ZC .', w=['ZA'])
    add('decl', 'zz @@ZA .', 'zz @@. zz ::= ZA .', 'zz @@: ZA .', 'zz @@% left ZA .', 'zz @@{x} .', 'zz @@[ ZA ] .', 'zz @@= ZA .', w=['zz'])
    add('decl', 'zz ( @@5 ) ::= ZA .', 'zz ( @@) ::= ZA .', 'zz ( @@"x" ) ::= ZA .', 'zz ( @@{x} ) ::= ZA .', 'zz ( @@. ) ::= ZA .', w=['zz'])
    add('decl', 'zz ( X @@Y ) ::= ZA .', 'zz ( X @@::= ZA .', 'zz ( X @@. ', 'zz ( X @@, Y ) ::= ZA .', w=['X'])
    add('decl', 'zz ( X ) @@ZA .', 'zz ( X ) @@. zz ::= ZA .', 'zz ( X ) @@: ZA .', 'zz ( X ) @@( Y ) ::= ZA .', w=['zz', 'X'])
    add('decl', 'zz ::= ZA ( @@9 ) .', 'zz ::= ZA ( @@) .', 'zz ::= ZA ( @@. ', 'zz ::= ZB ( X ) ZA ( @@{x} ) .', 'zz ( Y ) ::= ZB ZA ( @@"q" ) .', w=['ZA'])
    add('decl', 'zz ::= ZA ( X @@Y ) .', 'zz ( Y ) ::= ZA ( X @@. ', 'zz ( Y ) ::= ZB ( Z ) ZA ( X @@ZB ) .', 'zz ::= ZA ( X @@( Y ) ) .', w=['X'])
    for x in (':=', '"x"', '{x}', '[ ZA ]', '5', '| ZB', '|zb', '/zb', '/~ZB', '% left ZA', ')', ',', ';', '::= ZB', '=', '*', '?', '-', '|', '_x', "'x'"):
        add('decl', 'zz ::= ZA @@' + x + ' .')
    for x in ('( X )', '|ZB', '/ZB', '{x}', ';'):
        add('decl', 'zz ::= @@' + x + ' ZA .')
    add('decl', 'zz ::= zy @@|ZB .', 'zz ::= zy @@/ZB /ZC .', 'zz ::= ZA |ZB zy @@|ZC .', 'zz ( A ) ::= zy ( Z ) zx @@|ZC .')
    for x in ('bogus', 'Left', 'ifdefx', 'nonassocs', 'tokens', 'names', 'typ', 'endi', 'elseif', 'union', 'prec', 'start'):
        add('decl', '% @@' + x + ' .', w=[x])
    for x in ('5', '{x}', '%', '.', '"left"', '(', '_left', '::='):
        add('decl', '% @@' + x + ' .')
    for k in ('destructor', 'type'):
        add('decl', *['%' + k + ' @@' + x + ' .' for x in ('{ x }', '"x"', '5', '.', '<zz> {x}', '*')], w=[k])
    add('decl', '%type zz {int} %type @@zz {int}', '%type ZA {int} %type zz {int} %type @@zz {double}', '%type zz int zz ::= ZA . %type @@zz int', w=['zz'])
    add('decl', '%left @@zz .', '%right ZA @@zz ZB .', '%nonassoc @@zz .', w=['zz'])
    add('decl', *['%' + r.choice(['left', 'right', 'nonassoc', 'precedence']) + ' ZA @@' + x + ' .' for x in ('5', '{x}', ',', '"x"', '%', '[', '|ZX', '::=')])
    for k in ('name', 'include', 'code', 'token_destructor', 'default_destructor', 'token_prefix', 'syntax_error', 'parse_accept', 'parse_failure', 'stack_overflow', 'extra_argument',
              'extra_context', 'token_type', 'default_type', 'stack_size', 'start_symbol', 'destructor zz', 'type zz'):
        add('decl', '%' + k + ' @@' + r.choice(['.', '(', ';', '[', ')', '_x', '::=', '%', '-', '<', '*', '|ZX']) + ' .', w=[k.split()[0]])
    add('decl', '%fallback @@zz .', '%fallback ZA @@zz ZB .', '%fallback @@zz ZA .', w=['zz'])
    add('decl', '%fallback ZA @@, ZB .', '%fallback @@{x} .', '%fallback ZA @@% ZB .')
    add('decl', '%fallback ZA ZB . %fallback ZC @@ZB .', '%fallback ZA ZB @@ZB .', '%fallback ZA ZC ZB . %token ZD . %fallback ZD ZE @@ZB ZF .', w=['ZB'])
    add('decl', '%token @@zz .', '%token ZA @@zz ZB .', w=['zz'])
    add('decl', '%token @@5 .', '%token ZA @@, ZB .', '%token @@{x} .', '%token ZA @@% token ZB .', '%token ZA @@"x" .')
    add('decl', '%wildcard @@zz .', w=['zz'])
    add('decl', '%wildcard @@5 .', '%wildcard @@{x} .', '%wildcard ZA @@, .')
    add('decl', '%wildcard ZA . %wildcard @@ZB .', '%wildcard ZA @@ZB .', '%wildcard ZA . %token ZC . %wildcard @@ZB .', w=['ZB'])
    add('decl', '%token_class @@ZZ ZA .', '%token_class @@ZZ .', w=['ZZ'])
    add('decl', '%token_class @@5 ZA .', '%token_class @@. ', '%token_class @@{x} ZA .', '%token_class @@|ZA .')
    add('decl', 'zz ::= ZA . %token_class @@zz ZA .', '%token_class zz ZA . %token_class @@zz ZB .', '%type zz int %token_class @@zz ZB .', 'zy ::= zz . %token_class @@zz ZB .', w=['zz'])
    add('decl', '%token_class cc @@.', w=['cc'])
    add('decl', '%token_class cc ZA @@zb .', '%token_class cc @@zb .', '%token_class cc ZA @@|zb .', w=['zb'])
    add('decl', '%token_class cc ZA @@| ZB .', '%token_class cc ZA @@, ZB .', '%token_class cc @@{x} .', '%token_class cc ZA @@5 .', '%token_class cc @@% .')
    add('decl', 'zz ::= ' + 'ZA ' * 1000 + '@@ZB ZC .', w=['ZB'])
    open_ = ['{\n x();\n', '{ "}"; ', "{ '}' ", '{ // }\n', '{ /* }\n*/ ', '{ { }', '{ "abc } ', "{ 'x } ", '{ /* } ', '{ /*/ } ', '{ // } ', '{', '{ "\\"} ', '{{{}}\n']
    for x in open_:
        add('last', r.choice(['%include ', '%code ', '%name ', '%destructor zz ', '%type zz ', 'zz ::= ZA . ', '%syntax_error ']) + '@@' + x.replace(' ', '~'))
    add('last', '%name @@"abc~', '%include @@"abc\n{~}\n', '%token_type @@"~', '@@"xyz ', '%include "x" @@"')
    add('last', *['@@/*' + x for x in ('', '~x', '\n\n', '/', '~*', '\n*~/', '~//\n', '~"*"~/')])
    add('last', 'zz ::= ZA @@/*~x\n.', '%include {/*~*/} @@/*', '%left ZA @@/*~.', '/**/ @@/*')
    add('last', 'zz ::= ZA @@ZB', 'zz ::= @@ZA', 'zz @@::=', '@@zz', 'zz @@(', 'zz ( @@X', 'zz ( X @@)', 'zz ( X ) @@::=', 'zz ::= ZA @@(', 'zz ::= ZA ( @@X', 'zz ::= ZA ( X @@)',
        'zz ::= ZA ( X ) @@|ZB', '@@[', '%left ZA @@ZB', '%@@left', '%left ZA % ', '%token @@ZA', '%@@token', '%fallback ZA @@ZB', '%@@fallback', '%wildcard @@ZA', '%@@wildcard', '%token_class @@cc', '%token_class cc @@ZA',
        '%@@token_class', '%@@name', '%@@include', '%@@type', '%type @@zz', '%@@destructor', '%destructor @@zz', '@@%', 'zz ::= ZA . @@[', 'zz ::= ZA . [ @@ZA')
    # mistakes in a grammar that can be read
    k = r.randrange(len(t.rules))
    lhs, la, rhs, mark, code = t.rules[k]
    def mod(w=(), **kw):
        x = [lhs, la, list(rhs), mark, code]
        for q, v in kw.items():
            x[('lhs', 'la', 'rhs', 'mark', 'code').index(q)] = v
        out.append(('rule', (k, x), list(w)))
    i = r.randint(0, len(rhs))
    new = list(rhs)
    new.insert(i, ('zz', None))
    mod(rhs=new, w=['zz'])
    mod(rhs=new, code=None, la=None, w=['zz'])
    add('top', 'zz ::= ZA @@.', 'zz ::= @@.', 'zz ::= ' + n1 + ' @@. {x}', 'zz ::= zz ZA @@.', 'zz ::= ZA ZB @@.')
    add('decl', '%start_symbol zz', '%start_symbol ' + ta, w=['start symbol'])
    add('top', 'zz ::= start ZA .', n1 + ' ::= ZA start ZB .', w=['start'])
    mod(la='Q', code=r.choice(['{}', '{ q(); }', '{ Qx = xQ; }', '{ @~Q1; }', '{ Q_ = _Q; }']).replace(' ', '~') if r.random() < 0.8 else None, rhs=[(s, None) for s, a in rhs], w=['Q'])
    if rhs:
        i = r.randrange(len(rhs))
        def labelled(*ij):
            y = [(s, None) for s, a in rhs]
            for j, a in ij:
                y[j] = (y[j][0], a)
            return y
        mod(la=None, rhs=labelled((i, 'Q')), code=r.choice([None, '{}', '{~Q1~=~x;~}', '{~_Q;~}', '{~qQ;~}']), w=['Q'])
        if len(rhs) > 1:
            j = r.choice([x for x in range(len(rhs)) if x != i])
            mod(la=None, rhs=labelled((i, 'Q'), (j, 'Q')), code='{~f(Q);~}', w=['Q'])
            j = r.randrange(1, len(rhs))
            mod(la='Q', rhs=labelled((j, 'Q')), code='{~f(Q);~}', w=['Q'])
            mod(la='P', rhs=labelled((i, 'Q'), (j if j != i else 0, 'R')), code='{~P = f(Q);~}', w=['R'] if (j if j != i else 0) != i else [])
        if lhs not in ('start',):
            mod(la='P', rhs=labelled((0, 'Q')), code='{~g(Q);~/*P-overwrites-Q*/~P~=~f(Q);~}', w=['Q'])
        if not any(x.startswith('%type') for x in t.decl):
            x = [lhs, 'Q', labelled((0, 'Q')), mark, '{~Q;~}']
            if rhs[0][0] != lhs:
                out.append(('typed', (k, x, '%type ' + lhs + ' {some_t}'), ['Q']))
    for x in ('%if~FOO~|', '%if~', '%ifdef~A~B', '%ifdef~(A', '%ifndef~A)', '%if~A~&&', '%if~||A', '%if~!', '%if~A~!B', '%ifdef~A,', '%if~()', '%if~(A~B)', '%if~A~|~B', '%ifdef~~', '%if~1'):
        add('line', '@@' + x + '\n%endif')
    add('line', '@@%endif', '%ifdef~FOO\n%endif\n@@%endif', '@@%else', '%ifndef~FOO\n%else\n%endif\n@@%else')
    add('line', '@@%ifdef~FOO', '@@%ifndef~FOO', '@@%ifdef~FOO\n%ifdef~BAR\n%endif', '@@%ifndef~FOO\n%ifndef~BAR\n%endif', '%ifdef~X\n%endif\n@@%if~A')
    return out


GAPS = [' ', ' ', ' ', ' ', ' ', '\n', '\n', '  \n\t ', ' // x {\n', ' /* a\n * b */ ', '/**/', '/*/ */', '\n\n\n', '\r\n', ' /* % . */ ', ' //\n']
BETWEEN = ['', '', '', '\n', '\n// %left\n', '/* a\n ::= . */', '\n%ifdef~NOPE\nzz ::= ( \n%endif\n', '\n%ifndef~NOPE\n%endif~\n', '\n%if~A\n %bogus\n%else\n\n%endif\n', '\n/* c\n\n\n*/\n']
DIAG = re.compile(r'^(.*?):(\d+): (.*)$')


def build(t, units, calm):
    rng = t.rng
    out = []
    for x in units:
        if not calm:
            out.append(rng.choice(BETWEEN))
        x = re.sub(' ', lambda m: rng.choice(GAPS) if not calm and rng.random() < 0.4 else ' ', x)
        out.append(x)
    return '\n'.join(out).replace('~', ' ')


def case(ctx, c):
    rng = c.rng
    t = T(rng)
    while not t.tok:
        t = T(rng)
    opts = [o for o in ('-c', '-l', '-q', '-r', '-b', '-p', '-S', '-u', '-m') if rng.random() < 0.12]
    D, R = list(t.decl), list(t.rules)
    m = None
    if c.spec[0] == 'g':
        ms = mistakes(t, opts)
        while not m:
            sec = rng.choices(['decl', 'top', 'first', 'last', 'rule', 'typed', 'line'], [50, 12, 4, 14, 13, 2, 5])[0]
            m = rng.choice([x for x in ms if x[0] == sec] or [None])
        sec, text, words = m
    rules = lambda: [t.rule(r) for r in R]
    line = None
    if not m:
        units = D + rules()
    elif sec == 'rule' or sec == 'typed':
        k, x = text[:2]
        s = t.rule(x)
        i = s.index(' .')
        s = s[:i + 1] + '@@' + s[i + 1:]
        if sec == 'typed':
            D.append(text[2])
        units = D + [t.rule(r) if j != k else s for j, r in enumerate(R)]
        text = s
    else:
        Q = rules()
        if sec == 'first':
            D.insert(rng.randint(0, len(D)), text)
        elif sec == 'last':
            Q.append(text)
        elif sec == 'top' or sec == 'line' and rng.random() < 0.5:
            Q.insert(rng.randint(1, len(Q)), text)
        else:
            if rng.random() < 0.5:
                D.insert(rng.randint(0, len(D)), text)
            else:
                Q.insert(rng.randint(1, len(Q)), text)
        if text.startswith('%start_symbol'):
            D = [x for x in D if not x.startswith('%start_symbol')]
        units = D + Q
        if text.startswith('%start_symbol') and text not in units:
            units.insert(rng.randint(0, len(units)), text)
    calm = bool(m and sec == 'line')
    txt = build(t, units, calm)
    if not (m and sec == 'last'):
        txt += '\n' if calm else rng.choice(['', '\n', '\n\n// end', '\n/* end */', '  '])
    k = txt.find('@@')
    if k >= 0:
        line = txt[:k].count('\n') + 1
        txt = txt[:k] + txt[k + 2:]
        if '@@' in txt:
            raise ValueError('two marks: %r' % (m,))
    c.write('g.y', txt)
    r = le.run_lemon(c, opts)
    files = {'g.y': txt, 'cmd': 'lemon %s g.y\n' % ' '.join(opts), 'stderr': r.err}
    if r.slow:
        return c.inconclusive('slow')
    c.evals += 1
    c.saw(txt)
    if r.bad():
        return c.violation('generator', '%s: %s' % (opts, r.bad()), files)
    made = os.path.exists(c.path('g.c'))
    if not m:
        if r.rc or r.err.strip() or r.out.strip() or not made:
            return c.violation('complaint', 'a well-formed grammar is not accepted silently: exit %s\n%s%s' % (r.rc, r.out[:400], r.etext[:800]), files)
        c.count('well-formed')
        return
    what = '%s: %r (line %s)' % (sec, text[:300], line)
    if r.rc != 1:
        return c.violation('status', 'exit status %s for the mistake %s\n%s' % (r.rc, what, r.etext[:800]), files)
    msgs = r.etext.split('\n')
    if not msgs[0].strip():
        return c.violation('silent', 'no message for the mistake %s' % what, files)
    if sec == 'line':
        d = re.search(r'on line (\d+)\b', msgs[0])
        if not d or int(d.group(1)) != line:
            return c.violation('line', 'the message does not name line %d for %s\n%s' % (line, what, r.etext[:800]), files)
        c.count('conditionals')
    else:
        ds = [DIAG.match(x) for x in msgs if x.strip()]
        d = ds[0]
        if d is None or d.group(1) != 'g.y':
            return c.violation('line', 'the message does not name the file for %s\n%s' % (what, r.etext[:800]), files)
        if line is not None and int(d.group(2)) != line:
            return c.violation('line', 'line %s is named for the mistake %s\n%s' % (d.group(2), what, r.etext[:800]), files)
        if any(w not in d.group(3) for w in words) or '(null)' in d.group(3):
            return c.violation('name', 'the message does not name %s for the mistake %s\n%s' % (words, what, r.etext[:800]), files)
    c.count('mistakes: ' + sec)
    c.sample(dict(mistake=what, message=msgs[0][:200]))
