"""B10: byacc's #line directives."""
import os, random, re
from .. import by
from ..lines import Text, walk, cpp_check

TECH = 'runtime output monitor: every line of every piece of C code in a generated grammar carries a unique marker; each generated file is walked the way a C compiler counts lines, and each marker and directive is compared with the position it really has; a part of the files is also run through the C preprocessor with __LINE__ and __FILE__ in the markers'
NOTE = 'Held on the runs observed; every directive and every marker of each generated file is compared.'
TOOLS = ['byacc-san', 'nbyacc-san']
RULE = 'one evaluation = one directive or marker whose position was compared; distinct nontrivial = distinct (grammar text, options)'
ASSUMES = ['a #line directive in the grammar itself renames and renumbers what follows it', 'the counting rule of C: #line N "F" numbers the next line']


def plan(ctx):
    out = [[i] for i in range(1500 * (10 if ctx.thorough else 1))]
    random.Random(ctx.seed).shuffle(out)
    return out


def build(rng, fname, btyacc, trial):
    t = Text(rng, fname)
    union = rng.random() < 0.6
    loc = btyacc and rng.random() < 0.4
    renum = rng.random() < 0.3
    pieces = []
    for _ in range(rng.choice([0, 1, 1, 2])):
        pieces.append('text')
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        pieces.append('code')
    if union:
        pieces.append('union')
    if btyacc:
        for _ in range(rng.choice([0, 0, 1, 2])):
            pieces.append('destr')
        if loc and rng.random() < 0.6:
            pieces.append('init')
    if rng.random() < 0.2:
        pieces.append('param')
    if rng.random() < 0.15:
        pieces.append('ident')
    if rng.random() < 0.2:
        pieces.append('misc')
    rng.shuffle(pieces)
    if loc:
        t.put('%locations\n')
    nterm = rng.randrange(1, 4)
    toks = ['A', 'B', 'C', 'D'][:rng.randrange(2, 5)]
    nts = ['n%d' % i for i in range(nterm)]
    inh = union and btyacc and rng.random() < 0.3
    dests = 0
    kinds = set()
    if rng.random() < 0.5:
        t.gap()
    order = list(pieces)
    order.insert(rng.randrange(len(order) + 1), 'tokens')
    for p in order:
        if renum and rng.random() < 0.25:
            t.renumber()
        kinds.add(p)
        if p == 'text':
            t.bol()
            t.put('%{')
            t.code()
            t.put('%}')
        elif p == 'code':
            kw = rng.choice(['', ' top', ' requires', ' provides', ' imports'])
            if kw == ' imports':
                kinds.add('imports')
            t.put('%code' + kw + rng.choice([' {', '{' if not kw else ' {', '\n{']))
            t.code()
            t.put('}')
        elif p == 'union':
            t.put('%union' + rng.choice([' {', '{', '\n{', ' vf_name {' if btyacc else ' {']) + rng.choice(['', '\n', ' ']))
            t.put('int i; int j; ')
            for _ in range(rng.randrange(1, 4)):
                t.put('int ')
                t.mark()
                t.put(';' + rng.choice(['\n', ' ', '\n\n', ' /* \n*/ ']))
            t.put('}')
        elif p == 'destr':
            t.put('%destructor' + rng.choice([' {', ' {', '{']))
            t.code(dollar=['$$', '@$'] if loc else ['$$'])
            tg = rng.choice(toks + nts)
            if dests and rng.random() < 0.9:
                tg = rng.choice(toks + nts)
            t.put('} ' + rng.choice([tg] if not union else [tg, '<i>', '<j>', '<*>']))
            dests += 1
        elif p == 'init':
            t.put('%initial-action' + rng.choice([' {', '{']))
            t.code(dollar=['@$'])
            t.put('}')
        elif p == 'param':
            t.put(rng.choice(['%parse-param', '%lex-param']) + ' { int *')
            t.mark(True)
            t.put(' }\n')
        elif p == 'ident':
            t.put('%ident "v 1"')
        elif p == 'misc':
            t.put(rng.choice(['%pure-parser', '%token-table', '%start n0']))
        elif p == 'tokens':
            nums = rng.sample(list(range(1, 32)) + list(range(128, 300, 7)) + [1000, 2000], len(toks))
            t.put('%token ' + ('<i> ' if union else '') + ' '.join(x + (' %d' % n if rng.random() < 0.15 else '') for x, n in zip(toks, nums)))
            if union:
                t.gap()
                t.put('%type <i> ' + ' '.join([nts[0]] + [n + ('(<i>)' if inh else '') for n in nts[1:]]))
        t.gap()
    t.bol()
    t.put('%%')
    t.gap()
    anon = loc
    for i, n in enumerate(nts):
        if renum and rng.random() < 0.3:
            t.renumber()
        t.put(n)
        if inh and i:
            t.put('($q)')
        t.put(rng.choice([' :', ':', '\n  :', '  /* \n */ :']))
        for k in range(rng.choice([1, 1, 2, 3])):
            if k:
                t.put(rng.choice(['\n  |', '|', ' | ']))
            rhs = [rng.choice(toks + nts[i + 1:]) for _ in range(rng.choice([1, 1, 2, 3]))] + ([rng.choice(toks)] if i else [])
            val = 0
            for x in rhs:
                t.put(' ' + x)
                if inh and x in nts[1:]:
                    t.put('(')
                    t.mark()
                    t.put(rng.choice([' + $<i>1', '+1', '']) + ')')
                t.put(' ')
                val += 1
                if rng.random() < 0.3:
                    ref = ['$%d' % rng.randrange(1, val + 1), '$<i>%d' % 1, '$<i>$'] if union else ['$1', '$$']
                    if union:
                        ref = ['$<i>1', '$<i>$']
                    sq = trial and rng.random() < 0.25
                    t.put('[' if sq else '{')
                    t.code(dollar=ref + (['@1', '@$'] if loc else []))
                    t.put(']' if sq else '}')
                    val += 1
                    if rng.random() < 0.3:
                        t.gap()
            if rng.random() < 0.7:
                t.put(rng.choice([' ', '\n   ', '  /* k */ ']))
                pre = rng.choice(['{', '{', '{', '='])
                t.put('{' if pre == '{' else '= {')
                t.code(dollar=(['$<i>1', '$$', '$<i>$'] if union else ['$1', '$$', '$0']) + (['@1', '@$'] if loc else []))
                t.put('}')
        t.put(rng.choice([';', '\n  ;', ' ;']))
        t.gap()
    p = rng.random()
    if p < 0.8:
        t.bol()
        t.put('%%')
        q = rng.random()
        if q < 0.75:
            t.put('\n')
        elif q < 0.9:
            t.put(' ')
            t.mark()
            t.put(';\n')
        if q < 0.9:
            for _ in range(rng.choice([0, 1, 3, 8])):
                t.put('int ')
                t.mark()
                t.put(';' + rng.choice(['\n', '\n\n', '\n/* \n */\n']))
            if rng.random() < 0.3:
                t.put('int ')
                t.mark()
                t.put(';')
                if rng.random() < 0.5:
                    t.buf = t.buf.rstrip('\n')
    return t, kinds


def case(ctx, c):
    rng = c.rng
    btyacc = rng.random() < 0.7
    gdir = rng.choice(['', '', '', './', 'sub/'])
    gname = gdir + rng.choice(['g.y', 'g.y', 'g.y', 'a b.y', 'g', "it's.y", 'a%d.y', 'q"q.y', 'b\\n.y', 'x.y.y'])
    trial = btyacc and rng.random() < 0.35
    stdin = rng.random() < 0.05
    # the name of the standard input is given as "(null)", which the expected outputs of the tests fix
    t, kinds = build(rng, '(null)' if stdin else gname, btyacc, trial)
    os.makedirs(c.path('sub'), exist_ok=True)
    data = t.buf.encode('latin-1')
    open(c.path(gname), 'wb').write(data)
    opts = ['-B'] if trial else []
    for o in ('-d', '-i', '-r', '-t', '-v', '-g', '-P', '-s', '-L'):
        if rng.random() < 0.25 and (btyacc or o != '-L'):
            opts.append(o)
    if rng.random() < 0.3:
        opts += ['-p', rng.choice(['zz', 'calc_'])]
    lflag = rng.random() < 0.1
    if lflag:
        opts.append('-l')
    outn = None
    p = rng.random()
    if p < 0.3:
        outn = rng.choice(['out.c', 'sub/o.c', 'o o.c', 'o"o.c', 'o\\t.c', 'o%s.c'])
        opts += ['-o', outn]
    elif p < 0.5:
        opts += ['-b', rng.choice(['zz', 'sub/z', 'z z', 'z"z', 'z\\q'])]
    r = by.run_byacc(c, 'byacc' if btyacc else 'nbyacc', opts, '-' if stdin else gname, inp=data if stdin else b'')
    files = {'g.y': data, 'cmd': '%s %r %s\n' % ('byacc' if btyacc else 'nbyacc', opts, '-' if stdin else gname), 'stderr': r.err}
    if r.slow:
        return c.inconclusive('generator slow')
    if r.bad():
        return c.violation('generator', '%s: %s' % (opts, r.bad()), files)
    if r.rc:
        c.count('rejected', 1)
        return c.violation('rejected', 'a valid grammar is rejected (exit %s): %s' % (r.rc, r.etext[:400]), files)
    outs = []
    for d in ('', 'sub/'):
        for f in sorted(os.listdir(c.path(d or '.'))):
            p = d + f
            if os.path.isfile(c.path(p)) and p not in (gname, gname[2:]) and f != 'case.json' and re.search(r'\.(c|h|i)$', f):
                outs.append(p)
    seen = set()
    for f in outs:
        text = open(c.path(f), 'rb').read().decode('latin-1')
        s, msg = walk(c, f, text, t, lflag, f.endswith('.h') or f.endswith('.i'), '-i' in opts and '-r' not in opts, lost=f.endswith('.c') and (lambda m, ln: 'code of %s line %d without a #line directive' % t.where[m]))
        seen |= s
        if msg and msg[0] in ('header-union', 'self-interface'):
            c.violation(msg[0], msg[1], dict(files, header=text.encode('latin-1')))
        elif msg:
            files[os.path.basename(f)] = text.encode('latin-1')
            return c.violation(msg[0], msg[1], files)
    if rng.random() < 0.15 and not lflag:
        cs = [f for f in outs if f.endswith('.c')]
        for f in cs:
            msg = cpp_check(c, f, t)
            if msg:
                return c.violation('cpp', msg, files)
    lost = sorted(set(t.where) - seen - t.exempt)
    # destructors of symbols named twice replace each other; text in the comments of %union is kept
    if lost and 'destr' not in kinds and 'init' not in kinds and 'imports' not in kinds:
        return c.violation('lost', 'copied code missing from the output: %s' % lost[:5], files)
    c.count('files', len(outs))
    c.count('markers', len(seen))
    for k in kinds:
        c.count('piece ' + k)
    c.saw(t.buf, opts)
