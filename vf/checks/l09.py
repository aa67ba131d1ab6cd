"""L09: lemon's conditional directives select exactly the enabled text."""
import os
import random
import re
from .. import env, gen, le

TECH = 'runtime monitoring of the real lemon (ASan/UBSan): the text -E prints and the files it generates compared with an independent evaluation of the conditionals'
NOTE = ('Held on the executions observed. The oracle evaluates the directives over the line structure with C\'s rules for !, && and ||; text, generated parsers, reports and the line '
        'numbers of diagnostics are compared. Whether a repeated %else is an error is not specified.')
TOOLS = ['lemon-san']
RULE = ('one evaluation = one run of lemon on a text with conditionals under one set of -D macros, output, exit status and diagnostics judged; distinct nontrivial = distinct '
        '(text, macros) containing at least one directive')
ASSUMES = ['macro names start with a letter', 'directives start in the first column and are followed by white space']

NAMES = ['A', 'B', 'AB', 'ABC', 'A_1', 'a', 'X9_y', 'SQLITE_OMIT_X', 'B_', 'Z']


class Syn(Exception):
    pass


def evaluate(text, defs):
    """C's boolean expressions of defined names; raises Syn."""
    toks = re.findall(r'\s+|&&|\|\||[!()]|[A-Za-z][A-Za-z0-9_]*|.', text, re.S)
    toks = [t for t in toks if not t.isspace()]
    p = 0

    def peek():
        return toks[p] if p < len(toks) else None

    def disj():
        nonlocal p
        v = conj()
        while peek() == '||':
            p += 1
            v = conj() or v
        return v

    def conj():
        nonlocal p
        v = term()
        while peek() == '&&':
            p += 1
            v = term() and v
        return v

    def term():
        nonlocal p
        t = peek()
        if t is None:
            raise Syn()
        p += 1
        if t == '!':
            return not term()
        if t == '(':
            v = disj()
            if peek() != ')':
                raise Syn()
            p += 1
            return v
        if re.fullmatch(r'[A-Za-z]\w*', t):
            return t in defs
        raise Syn()
    v = disj()
    if p != len(toks):
        raise Syn()
    return v


def select(lines, defs):
    """Which lines are enabled.  Returns (list of bool, None) or (None, line number of the error)."""
    out = []
    st = []            # [enabled outside, condition, opening line, else seen]
    for n, l in enumerate(lines, 1):
        on = all(x[1] for x in st)
        m = re.match(r'%(ifdef|ifndef|if) (.*)', l, re.S)
        if m:
            if on:
                try:
                    v = evaluate(m.group(2), defs)
                except Syn:
                    return None, n
                if m.group(1) == 'ifndef':
                    v = not v
            else:
                v = True
            st.append([on, v, n])
            out.append(False)
        elif re.match(r'%else\s', l + '\n'):
            if not st:
                return None, n
            st[-1][1] = not st[-1][1] if st[-1][0] else True
            out.append(False)
        elif re.match(r'%endif\s', l + '\n'):
            if not st:
                return None, n
            st.pop()
            out.append(False)
        else:
            out.append(on)
    if st:
        return None, -1
    return out, None


def expr(rng, d=3):
    k = rng.random()
    if d == 0 or k < 0.35:
        return rng.choice(NAMES)
    if k < 0.5:
        return rng.choice(['!', '!', '! ', '!!', '! !', '!!!']) + expr_atom(rng, d - 1)
    sp = rng.choice(['', ' ', '  ', '\t'])
    op = rng.choice(['&&', '||'])
    return sp.join([expr(rng, d - 1), op, expr(rng, d - 1)])


def expr_atom(rng, d):
    return rng.choice(NAMES) if rng.random() < 0.5 else rng.choice(['(%s)', '( %s )']) % expr(rng, d)


def any_expr(rng):
    e = expr(rng, rng.choice([0, 1, 2, 3, 4]))
    while rng.random() < 0.3:
        e = '(%s)' % e
        if rng.random() < 0.5:
            e = e + rng.choice([' && ', '||']) + expr_atom(rng, 2)
        if rng.random() < 0.3:
            e = '!' + e if e[0] == '(' and e.endswith(')') else e
    return e


def broken(rng):
    toks = re.findall(r'&&|\|\||[!()]|\w+|\s+', any_expr(rng))
    for _ in range(rng.choice([1, 1, 2])):
        k = rng.randint(0, 3)
        i = rng.randint(0, max(0, len(toks) - 1))
        if k == 0 and toks:
            del toks[i]
        elif k == 1:
            toks.insert(i, rng.choice(['(', ')', '!', '&&', '||', ' A ', ' B', '&', '|', '1', '_', '=', ' ']))
        elif k == 2 and toks:
            toks[i] = rng.choice(['(', ')', '!', '&&', '||', 'A', '', '@'])
        else:
            toks = toks[:i]
    return ''.join(toks)


def body(rng, plain, depth, bad):
    """Lines with properly nested conditionals around the given plain lines."""
    out = []
    i = 0
    while i < len(plain):
        k = rng.random()
        if depth > 0 and k < 0.3:
            n = rng.randint(0, min(6, len(plain) - i))
            kw = rng.choice(['ifdef', 'ifndef', 'if', 'if'])
            e = rng.choice(NAMES) if kw != 'if' and rng.random() < 0.8 else any_expr(rng)
            if rng.random() < bad:
                e = broken(rng)
            out.append('%%%s %s%s' % (kw, e, rng.choice(['', '', ' ', '\r', '  '])))
            m = rng.randint(0, n) if rng.random() < 0.5 else n
            out += body(rng, plain[i:i + m], depth - 1, bad)
            if m < n or rng.random() < 0.2:
                out.append('%else' + rng.choice(['', ' ', ' // no', '\r']))
                out += body(rng, plain[i + m:i + n], depth - 1, bad)
            out.append('%endif' + rng.choice(['', ' ', ' // done', '\r', ' %endif']))
            i += n
            if not n:
                out.append(plain[i])
                i += 1
        else:
            out.append(plain[i])
            i += 1
    return out


WORDS = ['abc', 'x ::= y.', ' %ifdef A', '%ifdefined', '%elsewhere', '%endiff', '\t%endif', '  %else', '', '', '  ', '%token Q.', '// %if A', '/* %endif */', '%% %if B', '%',
         '%i', 'a%endif', '{ "x" }', '%include {', '}', '%ifndefx A', '%IFDEF A', "'%if A'", 'tail  ', '%else_', '%endif_', '%if_ A']


def args(rng, defs):
    out = ['-D' + d + rng.choice(['', '', '=1', '=', '=x=y', '=0']) for d in defs]
    if rng.random() < 0.3 and defs:
        out.append('-D' + rng.choice(sorted(defs)))
    if rng.random() < 0.3:
        out.append('-D' + rng.choice(['Q', '_A', 'A1', 'ABCD', 'b']))
    rng.shuffle(out)
    return out


def some_defs(rng):
    p = rng.choice([0, 0.2, 0.5, 0.8])
    return {x for x in NAMES if rng.random() < p}


def plan(ctx):
    k = 8 if ctx.thorough else 1
    out = [['text', i] for i in range(40 * k)] + [['bad', i] for i in range(20 * k)] + [['gram', i] for i in range(110 * k)] + [['deep', i] for i in range(4 * k)]
    random.Random(ctx.seed).shuffle(out)
    return out


def check_text(ctx, c, lines, defs, nl):
    rng = c.rng
    text = '\n'.join(lines) + nl
    c.write('t.y', text)
    a = args(rng, sorted(defs))
    extra = {x[2:].split('=')[0] for x in a}
    opts = a + ['-E'] + ['-T' + ctx.tool('lempar.c')]
    rng.shuffle(opts)
    r = env.run([ctx.tool('lemon-san')] + opts + ['t.y'], cwd=c.dir)
    c.evals += 1
    files = {'t.y': text, 'cmd': 'lemon %s t.y\n' % ' '.join(opts), 'stdout': r.out, 'stderr': r.err}
    if r.slow:
        c.inconclusive('slow')
        return
    if r.bad():
        c.violation('crash', 'lemon %s: %s\n%s' % (opts, r.bad(), r.etext[:1500]), files)
        return
    lines = (text[:-1] if nl else text).split('\n')
    sel, bad = select(lines, extra)
    ndir = sum(1 for l in lines if re.match(r'%(if|else|endif)', l))
    if ndir:
        c.saw(text, sorted(extra))
    if sel is None:
        c.count('malformed')
        if r.rc == 0:
            c.violation('accepted', 'malformed or unbalanced conditionals (%s) accepted with -D %s:\n%s' % (
                'line %d: %s' % (bad, lines[bad - 1]) if bad > 0 else 'missing %endif', sorted(extra), text[:2500]), files)
        elif not r.err:
            c.violation('no-message', 'malformed conditionals without a message', files)
        elif bad > 0 and not re.search(r'\bline %d\b' % bad, r.etext):
            c.violation('error-line', 'the error on line %d (%s) is reported as\n%s' % (bad, lines[bad - 1], r.etext), files)
        return
    c.count('wellformed')
    if r.rc:
        c.violation('rejected', 'well-formed conditionals rejected (exit %d): %s\n%s' % (r.rc, r.etext[:500], text[:2500]), files)
        return
    got = r.out.decode('latin-1')
    if not got.endswith('\n'):
        c.violation('text', 'the text -E prints is truncated', files)
        return
    got = got[:-1]
    if nl and got.endswith('\n'):
        got = got[:-1]
    got = got.split('\n')
    bad = None
    if len(got) != len(lines):
        bad = 'has %d lines, the input %d' % (len(got), len(lines))
    else:
        for n, (l, s, o) in enumerate(zip(lines, sel, got), 1):
            if (s and l != o) or (not s and o.strip()):
                bad = 'line %d (%s) is %r, printed as %r' % (n, 'enabled' if s else 'disabled', l, o)
                break
    if bad:
        c.violation('text', 'with macros %s the text -E prints: %s\n%s' % (sorted(extra), bad, text[:2500]), files)
        return
    c.count('disabled lines', sel.count(False))
    c.count('enabled lines', sel.count(True))
    c.sample(dict(text=text[:500], macros=sorted(extra), printed='\n'.join(got)[:500]))


def case(ctx, c):
    rng = c.rng
    kind = c.spec[0]
    if kind == 'gram':
        return grammar(ctx, c)
    if kind == 'deep':
        n = rng.choice([20, 100, 400])
        conds = [rng.choice(NAMES) for _ in range(n)]
        lines = []
        for i, x in enumerate(conds):
            lines += ['%%%s %s' % (rng.choice(['ifdef', 'if', 'if']), x if i < n - 5 else any_expr(rng)), 'in %d' % i]
        for i in range(n):
            if rng.random() < 0.6:
                lines += ['%else', 'else %d' % (n - i)]
            lines += ['%endif', 'out %d' % (n - i)]
        if rng.random() < 0.3:
            del lines[rng.randrange(len(lines))]
        for p in (1.0, 0.97, 0.5):
            check_text(ctx, c, lines, {x for x in NAMES if rng.random() < p}, '\n')
        return
    for _ in range(12):
        plain = [rng.choice(WORDS) if rng.random() < 0.6 else 'line %d' % i for i in range(rng.choice([1, 3, 8, 20, 60]))]
        lines = body(rng, plain, rng.choice([1, 2, 3, 6]), 0.15 if kind == 'bad' else 0)
        if kind == 'bad':
            j = [i for i, l in enumerate(lines) if re.match(r'%(if|else|endif)', l)]
            if j and rng.random() < 0.5:
                x = rng.choice(j)
                if rng.random() < 0.6:
                    del lines[x]
                else:
                    lines.insert(x, lines[x])
            elif rng.random() < 0.4:
                lines.insert(rng.randint(0, len(lines)), rng.choice(['%endif', '%if A', '%ifdef B', '%ifndef A ']))
            # a repeated %else of one conditional is not specified
            d = [0]
            twice = False
            for l in lines:
                if re.match(r'%(ifdef|ifndef|if) ', l):
                    d.append(0)
                elif re.match(r'%else\s', l + '\n'):
                    d[-1] += 1
                    twice = twice or (len(d) > 1 and d[-1] > 1)
                elif re.match(r'%endif\s', l + '\n') and len(d) > 1:
                    d.pop()
            if twice:
                continue
        nl = rng.choice(['\n', '\n', ''])
        for _ in range(3):
            check_text(ctx, c, lines, some_defs(rng), nl)
            if c.viol:
                return


def outputs(ctx, c, name, text, opts):
    d = c.path(name)
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(d):
        os.unlink(d + '/' + f)
    with open(d + '/g.y', 'w', encoding='latin-1', newline='') as fh:
        fh.write(text)
    r = env.run([ctx.tool('lemon-san'), '-T' + ctx.tool('lempar.c')] + opts + ['g.y'], cwd=d)
    out = {f: open(d + '/' + f, encoding='latin-1').read() for f in os.listdir(d) if f != 'g.y'}
    if 'g.c' in out:
        # the header comment names the macros used
        i = out['g.c'].find('*/')
        out['g.c'] = out['g.c'][i:] if out['g.c'].startswith('/*') else out['g.c']
        if out['g.c'] and '#line' in out['g.c'] and '-l' not in opts:
            out['g.c'] = re.sub(r'(?m)^#line \d+ "g\.c"', '#line N "g.c"', out['g.c'])
    return r, out


def grammar(ctx, c):
    rng = c.rng
    g = gen.conflict_free(rng, rng.choice(['tiny', 'small', 'unit', 'medium', 'mix', 'null']))
    if not g:
        return
    g = le.start_ok(g)
    sp = le.Spell(g)
    # a token may be unused once rules are disabled: declare all
    decl = ['%%token %s.' % ' '.join(sp.tok[t] for t in range(1, g.T)), '%start_symbol ' + sp.nt[g.start], '%include {', '/* inc */', '#define INC 1', '}']
    rules = []
    for i, (l, r) in enumerate(g.rules):
        t = '%s ::= %s.' % (sp.nt[l], ' '.join(sp.sym(x) for x in r))
        if rng.random() < 0.3:
            rules += [t + ' {', '  act(%d);' % i, '  more();', '}']
        else:
            rules.append(t)
    plain = decl + rules
    lines = body(rng, plain, rng.choice([1, 1, 1, 2, 3]), 0)
    for _ in range(2):
        if rng.random() < 0.15:
            lines.insert(rng.randint(0, len(lines)), rng.choice(['??', '%nothing x', 'x ::= .. A', '%token lower.']))
    text = '\n'.join(lines) + '\n'
    for _ in range(3):
        defs = some_defs(rng)
        sel, bad = select(lines, defs)
        if sel is None:
            return
        want = '\n'.join(l if s else '' for l, s in zip(lines, sel)) + '\n'
        o = rng.choice([[], ['-l'], ['-s'], ['-c']])
        r, out = outputs(ctx, c, 'a', text, o + ['-D' + x for x in sorted(defs)])
        q, exp = outputs(ctx, c, 'b', want, o)
        c.evals += 1
        files = {'g.y': text, 'enabled.y': want, 'cmd': 'lemon %s %s g.y\n' % (' '.join(o), ' '.join('-D' + x for x in sorted(defs))),
                 'stderr': r.err, 'stderr.expected': q.err}
        if r.slow or q.slow:
            c.inconclusive('slow')
            return
        if r.bad():
            c.violation('crash', 'lemon: %s' % r.bad(), files)
            return
        c.saw(text, sorted(defs), *o)
        c.count('generated' if q.rc == 0 else 'rejected')
        if (r.rc, r.etext, r.text) != (q.rc, q.etext, q.text):
            c.violation('messages', 'with macros %s lemon exits %d, with only the enabled lines %d\n%s\n--- expected\n%s' % (
                sorted(defs), r.rc, q.rc, (r.etext + r.text)[:1500], (q.etext + q.text)[:1500]), files)
            return
        for f in sorted(set(out) | set(exp)):
            if out.get(f) != exp.get(f):
                x, y = [[l.rstrip() for l in (z.get(f) or '(missing)').split('\n')] for z in (out, exp)]
                if x == y:
                    continue
                k = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
                c.violation('files', 'with macros %s %s differs from that of the enabled lines alone: %r, expected %r' % (
                    sorted(defs), f, x[k:k + 3], y[k:k + 3]), files)
                return
