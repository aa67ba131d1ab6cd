"""L13: lemon's #line directives."""
import os, random, re
from .. import le
from ..lines import Text, walk, cpp_check

TECH = 'runtime output monitor: every line of every piece of C code in a generated grammar carries a unique marker; the generated parser is walked the way a C compiler counts lines, and each marker and directive is compared with the position it really has; a part of the files is also run through the C preprocessor with __LINE__ and __FILE__ in the markers'
NOTE = 'Held on the runs observed; every directive and every marker of each generated file is compared.'
TOOLS = ['lemon-san']
RULE = 'one evaluation = one directive or marker whose position was compared; distinct nontrivial = distinct (grammar text, options)'
ASSUMES = ['code that starts on line 1 of the grammar has no #line directive: lemon leaves it out on purpose', 'the counting rule of C: #line N "F" numbers the next line']


def plan(ctx):
    out = [[i] for i in range(1200 * (10 if ctx.thorough else 1))]
    random.Random(ctx.seed).shuffle(out)
    return out


def build(rng, fname):
    t = Text(rng, fname)
    t.top = set()
    toks = ['A', 'B', 'C', 'D'][:rng.randrange(2, 5)]
    nts = ['n%d' % i for i in range(rng.randrange(1, 4))]
    kinds = set()
    types = rng.random() < 0.5
    decl = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        decl.append('include')
    for _ in range(rng.choice([0, 0, 1, 2])):
        decl.append('code')
    for k in ('syntax_error', 'parse_accept', 'parse_failure', 'stack_overflow', 'token_destructor', 'default_destructor'):
        for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
            decl.append(k)
    used = set()
    for n in nts:
        if rng.random() < 0.4:
            decl.append('destructor ' + n)
            if rng.random() < 0.2:
                decl.append('destructor ' + n)
        if types and rng.random() < 0.5:
            decl.append('type ' + n)
    for k in ('extra_argument', 'extra_context', 'token_type', 'default_type', 'stack_size', 'name', 'prec', 'token'):
        if rng.random() < 0.15:
            decl.append(k)
    rng.shuffle(decl)
    rules = []
    for i, n in enumerate(nts):
        for k in range(rng.choice([1, 1, 2, 3])):
            rules.append((i, n))
    # declarations before, between and behind the rules
    seq = [('d', d) for d in decl]
    at = 0
    for r in rules:
        at = rng.randrange(at, len(seq) + 1)
        seq.insert(at, ('r', r))
        at += 1
    ifs = 0

    def gap():
        t.put(rng.choice(['\n', '\n', '\n', '\n\n', ' /* \n */ ', '\n// x\n', '\n/* a\n b */\n', ' /* z */ ', '\n%ifdef NEVER\n%include { never }\n\n%endif\n', '\n%ifndef NEVER\n\n%endif\n', '\n%ifdef SET\n%else\nno ::= NO.\n%endif\n']))
    if rng.random() < 0.6:
        gap()
    for k, d in seq:
        if k == 'd':
            w = d.split()
            kinds.add(w[0])
            if w[0] in ('extra_argument', 'extra_context'):
                t.put('%' + w[0] + ' { int *')
                t.mark(True)
                t.put(' }')
            elif w[0] in ('token_type', 'default_type', 'type'):
                t.put('%' + d + ' { ' + rng.choice(['int', 'char *', 'struct {\n int x;\n }']) + ' }')
            elif w[0] == 'stack_size':
                t.put('%stack_size ' + rng.choice(['0', '50']))
            elif w[0] == 'name':
                t.put('%name ' + rng.choice(['Calc', 'Z']))
            elif w[0] == 'prec':
                t.put('%left ' + rng.choice(toks) + '.')
            elif w[0] == 'token':
                t.put('%token X1 X2.')
            else:
                t.put('%' + d + rng.choice([' ', '\n', ' /* \n */ ']))
                n0, first = t.n, t.buf.count('\n') == 0
                if rng.random() < 0.1:
                    t.put('"')
                    t.mark()
                    t.put(rng.choice([' ', '\n', '\n\n']))
                    t.mark()
                    t.put(rng.choice(['', '\n']) + '"')
                else:
                    t.put('{')
                    t.code(dollar=['$$'] if 'destructor' in w[0] else [])
                    t.put('}')
                if first:       # lemon writes no #line for a piece that starts on line 1
                    t.top.update('vfm_%d_' % k for k in range(n0 + 1, t.n + 1))
        else:
            i, n = d
            rhs = [rng.choice(toks + nts[i + 1:]) for _ in range(rng.choice([0, 1, 1, 2, 3]))] + ([rng.choice(toks)] if i else [])
            if i == 0 and not rhs:
                rhs = [rng.choice(toks + nts[1:])]
            act = rng.random() < 0.75
            t.put(n + ('(R)' if act else '') + rng.choice([' ::= ', '::=', '\n ::=\n ', ' /* \n */ ::= ']))
            names = []
            for j, x in enumerate(rhs):
                t.put(x)
                if act and rng.random() < 0.8:
                    t.put('(%s)' % 'XYZUVW'[j])
                    names.append('XYZUVW'[j])
                t.put(rng.choice([' ', ' ', '\n', ' /* \n */ ']))
            t.put('.')
            if act:
                if rng.random() < 0.15:
                    t.put(' [%s]' % rng.choice(toks))
                t.put(rng.choice([' ', ' ', '\n  ', ' // c\n']))
                t.put('{')
                t.put(' R = 0%s; ' % ''.join('+ ' + x for x in names))
                t.code(dollar=['R'] + names)
                t.put('}')
                kinds.add('action')
        gap()
    # all nonterminals must be reachable and all of them have a rule; unreachable ones are no error
    if rng.random() < 0.3:
        t.buf = t.buf.rstrip('\n')
    return t, kinds


def case(ctx, c):
    rng = c.rng
    gdir = rng.choice(['', '', '', './', 'sub/'])
    gname = gdir + rng.choice(['g.y', 'g.y', 'g.y', 'a b.y', 'g.lemon', "it's.y", 'a%d.y', 'q"q.y', 'b\\n.y', 'x.y.y'])
    t, kinds = build(rng, gname)
    os.makedirs(c.path('sub'), exist_ok=True)
    os.makedirs(c.path('d'), exist_ok=True)
    data = t.buf.encode('latin-1')
    open(c.path(gname), 'wb').write(data)
    opts = ['-DSET']
    for o in ('-c', '-m', '-q', '-r', '-s', '-S', '-p'):
        if rng.random() < 0.15:
            opts.append(o)
    lflag = rng.random() < 0.1
    if lflag:
        opts.append('-l')
    if rng.random() < 0.2:
        opts.append('-dd')
    r = le.run_lemon(c, opts, gname)
    files = {'g.y': data, 'cmd': 'lemon %r %s\n' % (opts, gname), 'stderr': r.err + r.out}
    if r.slow:
        return c.inconclusive('generator slow')
    if r.bad():
        return c.violation('generator', '%s: %s' % (opts, r.bad()), files)
    outs = []
    for d in ('', 'sub/', 'd/'):
        for f in sorted(os.listdir(c.path(d or '.'))):
            p = d + f
            if os.path.isfile(c.path(p)) and f.endswith('.c'):
                outs.append(p)
    txt = r.etext + r.text
    if not outs:
        return c.violation('rejected', 'no parser for a valid grammar (exit %s): %s' % (r.rc, txt[:400]), files)
    if len(outs) != 1:
        return c.violation('rejected', 'more than one parser: %s' % outs, files)
    seen = set()
    for f in outs:
        text = open(c.path(f), 'rb').read().decode('latin-1')
        files[os.path.basename(f)] = text.encode('latin-1')
        s, msg = walk(c, f, text, t, lflag, False, lost=lambda m, ln: m not in t.top and 'code of %s line %d without a #line directive' % t.where[m])
        seen |= s
        if msg:
            return c.violation(msg[0], msg[1], files)
        if rng.random() < 0.15 and not lflag and '-m' not in opts:
            msg = cpp_check(c, f, t)
            if msg:
                return c.violation('cpp', msg, files)
    lost = sorted(set(t.where) - seen - t.exempt)
    c.count('markers', len(seen))
    c.count('markers not copied', len(lost))
    for k in kinds:
        c.count('piece ' + k)
    c.saw(t.buf, opts)
