"""B15: byacc survives any input text."""
import os, re, random
from .. import env, by, fuzz

TECH = 'sanitizers (ASan+UBSan) and a termination/exit/diagnostic monitor over grammar-aware mutation fuzzing of the generator'
NOTE = 'Held on the executions observed: no sanitizer report, signal or endless loop, exit status 0-2, diagnostics on failure and complete output on success.'
TOOLS = ['byacc-san', 'nbyacc-san']
RULE = ('one evaluation = one run of the sanitized generator on a mutated grammar with random options; distinct nontrivial = distinct '
        '(input, options) of at least 20 bytes')
ASSUMES = ['CPU limit 25 s (75 s on the second try) decides that a run does not terminate']
OPTS = ['-B', '-c', '-C', '-d', '-e', '-E', '-g', '-i', '-l', '-L', '-n', '-N', '-P', '-r', '-s', '-S', '-t', '-v', '-u', '-z']
PER = 40


def plan(ctx):
    k = 12 if ctx.thorough else 1
    return [['dir', i] for i in range(8)] + [['m', i] for i in range(150 * k)] + [['g', i] for i in range(60 * k)]


def options(rng):
    o = [x for x in OPTS if rng.random() < 0.12]
    if rng.random() < 0.06:
        o += ['-p', rng.choice(['zz', 'a' * 300, 'x_1'])]
    if rng.random() < 0.05:
        o += ['-b', rng.choice(['q', 'b' * 100])]
    return o


def big(text):
    """Very large token numbers make the name tables huge: not run."""
    return re.search(rb'\d{6,}', text)


DIRECTED = None


def directed():
    """Sizes and shapes around the implementation's limits."""
    out = []
    for n in (1, 19, 20, 21, 40, 300):
        out.append(b'%type <a> x(' + b' '.join(b'<t%d>' % i for i in range(n)) + b')\n%%\ns: A x; x: B;')
        out.append(b'%token ' + b' '.join(b'T%d' % i for i in range(n)) + b'\n%%\ns: ' + b' '.join(b'T%d' % i for i in range(n)) + b' ;\n')
        out.append(b'%%\n' + b''.join(b's%d: %s ;\n' % (i, b"'a' s%d" % (i + 1) if i < n else b'') for i in range(n + 1)))
        out.append(b'%%\ns: ' + b"'a' " * n * 20 + b';\n')
        out.append(b'%%\ns: ' + b'{ a(); } ' * n + b"'x' ;\n")
        out.append(b'%union {' + b' int x; ' * n * 10 + b'}\n%%\ns: A ;\n')
        out.append(b'%{' + b'\n' * n * 10 + b'%}\n%%\ns: A ;\n')
        out.append(b'%' + b'x' * n * 20 + b'\n%%\ns:;')
        out.append(b'%%\ns: "' + b'y' * n * 10 + b'" ;')
        out.append(b"%%\ns: '" + b'y' * n * 10 + b"' ;")
        out.append(b'%%\ns: A { ' + b'{' * n * 5 + b'}' * n * 5 + b' } ;')
        out.append(b'%ident "' + b'z' * n * 10 + b'"\n%%\ns: ;')
        out.append(b'%define ' + b'z' * n * 10 + b' v\n%%\ns: ;')
        out.append(b'%parse-param {' + b'int *' + b'z' * n * 10 + b'}\n%lex-param {' + b'long ' + b'q' * n * 10 + b'[2]}\n%%\ns: ;')
        out.append(b'%code top { ' + b'/*' * n + b' */ }\n%%\ns: ;')
        out.append(b'%destructor { f($$); ' + b'"a" ' * n + b'} ' + b' '.join(b's%d' % i for i in range(n)) + b'\n%%\n' + b''.join(b's%d: A;' % i for i in range(n)))
        out.append(b'%%\n' + b'n' * n * 10 + b': A ;')
        out.append(b'%%\ns: ' + b'\n| '.join(b"'a' " + b'B%d ' % i * (i % 7) for i in range(n)) + b';')
    # the item and rule tables grow by 300 and 100: an action inside a rule takes two items and one rule at once
    for n in list(range(290, 302)) + list(range(591, 602)):
        out.append(b"%%\ns: " + b"'a' " * n + b"{ x; } 'b' ;\n")
    for n in range(92, 104):
        out.append(b'%token ' + b' '.join(b'T%d' % i for i in range(n)) + b'\n%%\ns: ' + b' | '.join(b'T%d' % i for i in range(n)) + b"{ x; } 'b' { y; } 'c' ;\n")
    base = b"%token A <x> B\n%union { int x; }\n%left '+' '-'\n%type <x> e\n%start e\n%%\ne: e '+' e { $$ = $1 + $3; } | B | A { $<x>$ = 1; /* c */ } e %prec A ;\n%%\nint x;\n"
    for i in range(len(base) + 1):
        out.append(base[:i])
    for i in range(0, len(base), 2):
        out.append(base[:i] + b'\0' + base[i:])
        out.append(base[:i] + b'\n\n' + base[i:])
    return out


def run_one(c, variant, opts, text, name='g.y'):
    c.write(name, text)
    for f in os.listdir(c.dir):
        if f != name and f != 'tmp':
            os.unlink(c.path(f))
    r = by.run_byacc(c, variant, opts, fname=name)
    c.evals += 1
    if len(text) >= 20:
        c.saw(text, tuple(opts))
    if r.slow or r.sig == 25:
        c.inconclusive('slow or output too large')
        return True
    msg = None
    if r.bad():
        msg = r.bad()
    elif r.rc not in (0, 1, 2):
        msg = 'exit status %d' % r.rc
    elif r.rc and not r.err.strip():
        msg = 'exit status %d without a diagnostic' % r.rc
    elif r.rc == 0:
        c.count('exit 0')
        msg = complete(c, opts, text)
    else:
        c.count('exit %d' % r.rc)
        m = re.search(r'[ew] - line (\d+) of "g\.y"', r.etext)
        if m:
            c.count('diagnostics with a line')
            if b'#line' not in text and int(m.group(1)) > text.count(b'\n') + 2:
                msg = 'diagnostic names line %s of a %d line file' % (m.group(1), text.count(b'\n') + 1)
        elif re.search(r'[ew] - line \d+ of', r.etext):
            c.count('diagnostics with a line of another file (#line in the grammar)')
        elif ': e - ' in r.etext or ': f - ' in r.etext:
            c.count('diagnostics without a line')
        else:
            # a run that fails after reading the grammar reports conflicts that were not expected
            if 'expected' not in r.etext and 'conflict' not in r.etext:
                msg = 'exit status %d without an error message: %s' % (r.rc, r.etext[:300])
    if msg:
        c.violation('robust', '%s %s: %s\n%s' % (variant, ' '.join(opts), msg, r.etext[:3000]),
                    {'g.y': text, 'cmd': variant + ' ' + ' '.join(opts) + ' g.y\n', 'stderr': r.err})
        return False
    return True


def complete(c, opts, text):
    pre = opts[opts.index('-b') + 1] if '-b' in opts else 'y'
    want = ['%s.tab.c' % pre]
    if '-d' in opts:
        want.append('%s.tab.h' % pre)
    if '-v' in opts:
        want.append('%s.output' % pre)
    if '-g' in opts:
        want.append('%s.dot' % pre)
    if '-r' in opts:
        want.append('%s.code.c' % pre)
    if '-i' in opts:
        want.append('%s.tab.i' % pre)
    for w in want:
        if not os.path.exists(c.path(w)) or os.path.getsize(c.path(w)) == 0 and w[-2:] == '.c':
            return 'exit status 0 but %s is %s' % (w, 'empty' if os.path.exists(c.path(w)) else 'missing')
    code = open(c.path('%s.code.c' % pre if '-r' in opts else '%s.tab.c' % pre), 'rb').read()
    if b'yyaccept:' not in code or b'yyreturn:' not in code and b'return (0);' not in code:
        return 'exit status 0 but the parser is incomplete'
    return None


def case(ctx, c):
    rng = c.rng
    kind = c.spec[0]
    if kind == 'dir':
        for k, t in enumerate(directed()):
            if k % 8 != c.spec[1]:
                continue
            for o in (['-v', '-g', '-E', '-S', '-e', '-n'], ['-B', '-t', '-d', '-N', '-c', '-C', '-i'], options(rng)):
                if not run_one(c, 'byacc', o, t):
                    return
            if not run_one(c, 'nbyacc', ['-n', '-v'], t):
                return
        return
    base = fuzz.base_y()
    for _ in range(PER):
        b = rng.choice(base) if kind == 'm' else fuzz.gen_y(rng)
        if kind == 'm' or rng.random() < 0.8:
            b = fuzz.mutate(rng, b, base, fuzz.YDICT)
        if big(b):
            continue
        if not run_one(c, 'byacc' if rng.random() < 0.7 else 'nbyacc', options(rng), b):
            return
