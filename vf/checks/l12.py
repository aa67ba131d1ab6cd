"""L12: lemon survives any input text."""
import os, re
from .. import env, le, fuzz

TECH = 'sanitizers (ASan+UBSan) and a termination/exit/diagnostic monitor over grammar-aware mutation fuzzing of the generator'
NOTE = 'Held on the executions observed: no sanitizer report, assertion, signal or endless loop, exit status 0 or 1, diagnostics on failure and complete output on success.'
TOOLS = ['lemon-san']
RULE = ('one evaluation = one run of the sanitized generator on a mutated grammar with random options; distinct nontrivial = distinct '
        '(input, options) of at least 20 bytes')
ASSUMES = ['CPU limit 25 s (75 s on the second try) decides that a run does not terminate']
OPTS = ['-b', '-c', '-DX', '-DFOO=1', '-E', '-g', '-y', '-Y', '-z', '-u', '-l', '-p', '-q', '-r', '-s', '-S']
PER = 45


def plan(ctx):
    k = 12 if ctx.thorough else 1
    return [['dir', i] for i in range(8)] + [['m', i] for i in range(120 * k)] + [['g', i] for i in range(70 * k)]


def options(rng):
    return [x for x in OPTS if rng.random() < 0.13]


def directed():
    out = []
    for n in (1, 2, 19, 20, 99, 100, 101, 300):
        m = min(n, 101)         # the action table is built in time O(n^4) for these
        j = b' '.join
        out.append(b's ::= ' + j(b'T%d' % i for i in range(m)) + b'.\n')
        out.append(b's ::= ' + b'|'.join(b'T%d' % i for i in range(n)) + b'.\n')
        out.append(b'%token ' + j(b'T%d' % i for i in range(n)) + b'.\ns ::= T0.\n')
        out.append(b'%left ' + j(b'T%d' % i for i in range(n)) + b'.\ns ::= T0.\n')
        out.append(b'%fallback X ' + j(b'T%d' % i for i in range(n)) + b'.\ns ::= T0 X.\n')
        out.append(b'%token_class q ' + b'|'.join(b'T%d' % i for i in range(n)) + b'.\ns ::= q.\n')
        out.append(b''.join(b's%d ::= A s%d.\n' % (i, i + 1) for i in range(n)) + b's%d ::= .\n' % n)
        out.append(b's ::= A.' + b' {' + b'{' * n + b'}' * n + b'}\n')
        out.append(b's(A) ::= ' + j(b'T%d(X%d)' % (i, i) for i in range(m)) + b'. { A = f(' + b','.join(b'X%d' % i for i in range(m)) + b'); }\n')
        out.append(b's' + b'x' * n * 12 + b' ::= T' + b'Y' * n * 12 + b'(L' + b'z' * n * 12 + b').{ L' + b'z' * n * 12 + b'; }\n')
        out.append(b'%name ' + b'N' * n * 12 + b'\ns ::= A.\n')
        out.append(b'%include {' + b' int x; ' * n * 12 + b'}\ns ::= A.\n')
        out.append(b'%token_type {' + b' int ' * n + b'}\n%type s {' + b'char*' * n + b'}\ns ::= A.\n')
        out.append(b''.join(b'%%type s%d { struct t%d* }\n' % (i, i) for i in range(n)) + b''.join(b's%d ::= A s%d.\n' % (i, i + 1) for i in range(n)) + b's%d ::= .\n' % n)
        out.append(b'%ifdef X\n' * n + b'%endif\n' * n + b's ::= A.\n')
        out.append(b'%if ' + b'(' * n + b'X' + b')' * n + b'\n%endif\ns ::= A.\n')
        out.append(b'%if ' + b'!' * n + b'X && Y\n%endif\ns ::= A.\n')
        out.append(b'\n' * n + b's ::= A\n' + b'\n' * n + b'. ::=')
        out.append(b's ::= s ' + b' s ' * (n % 30) + b'A.\ns ::= .\n')
        out.append(b''.join(b's ::= T%d%s.\n' % (i, b' s' * (i % 7)) for i in range(n)) + b's ::= .\n')
        out.append(b''.join(b's ::= A%s. [P%d]\n%%nonassoc P%d.\n' % (b' s' * (i % 9), i % 3, i % 3) for i in range(n)))
        out.append(b'%stack_size ' + b'9' * (n % 12 + 1) + b'\ns ::= A.\n')
        out.append(b'%expect ' + b'9' * (n % 12 + 1) + b'\ns ::= A.\n')
        out.append(b'%destructor s { f($$); ' + b'"}" \'}\' /* } */ ' * n + b'}\n%default_destructor { g($$); }\ns ::= A.\n')
    for k, b in enumerate(fuzz.LEMON_SEEDS):
        out += [b[:i] for i in range(len(b) + 1)]
        out += [b[:i] + b'\0' + b[i:] for i in range(0, len(b), 3)]
        out += [b[:i] + b'\n' + b[i:] for i in range(0, len(b), 3)]
        out += [b[:i] + b'"' + b[i:] for i in range(0, len(b), 3)]
    return out


def run_one(c, opts, text):
    c.write('g.y', text)
    at = ''
    if c.rng.random() < 0.04:
        # written to another directory, with a name of any length
        at = 'vf' + '/x' * c.rng.choice([0, 1, 3, 20, 100]) + 'y' * c.rng.choice([0, 1, 5, 30, 200]) + '/'
        opts = opts + ['-d' + at[:-1]]
        os.makedirs(c.path(at), exist_ok=True)
    for d in ['.'] + [at] * (at != ''):
        for f in os.listdir(c.path(d)):
            if f != 'g.y' and not os.path.isdir(c.path(d + '/' + f)):
                os.unlink(c.path(d + '/' + f))
    r = le.run_lemon(c, opts)
    c.evals += 1
    if len(text) >= 20:
        c.saw(text, tuple(opts))
    if r.slow or r.sig == 25:
        c.inconclusive('slow or output too large')
        return True
    msg = None
    both = r.etext + r.text
    if r.bad():
        msg = r.bad()
    elif r.rc not in (0, 1):
        msg = 'exit status %d' % r.rc
    elif r.rc:
        c.count('exit 1')
        if not r.err.strip():
            msg = 'exit status 1 without a diagnostic'
        else:
            m = re.findall(r'(?:g\.y:|on line )(\d+)', r.etext)
            if m:
                c.count('diagnostics with a line')
                bad = [x for x in m if not 0 <= int(x) <= text.count(b'\n') + 2]
                if bad:
                    msg = 'diagnostic names line %s of a %d line file' % (bad[0], text.count(b'\n') + 1)
            else:
                c.count('diagnostics without a line')
                if not re.search(r'conflict|can not|is never|never be|Out of memory|mpty grammar|Unable|undefined|unused|cannot', r.etext, re.I):
                    msg = 'exit status 1 without a known message: ' + r.etext[:300]
    else:
        c.count('exit 0')
        if '-E' not in opts and '-g' not in opts and '-y' not in opts and '-Y' not in opts:
            w = ['g.c', 'g.h'] + ([] if '-q' in opts else ['g.out'])
            if '-S' in opts:
                w.append('g.sql')
            for x in w:
                if not os.path.exists(c.path(at + x)) or not os.path.getsize(c.path(at + x)) and x != 'g.h':
                    msg = 'exit status 0 but %s is %s' % (x, 'empty' if os.path.exists(c.path(at + x)) else 'missing')
                    break
            else:
                if b'ParseFallback' not in open(c.path(at + 'g.c'), 'rb').read() and b'%name' not in text:
                    msg = 'exit status 0 but the parser is incomplete'
    if msg:
        c.violation('robust', 'lemon %s: %s\n%s' % (' '.join(opts), msg, r.etext[:3000]),
                    {'g.y': text, 'cmd': 'lemon ' + ' '.join(opts) + ' g.y\n', 'stderr': r.err})
        return False
    return True


def case(ctx, c):
    rng = c.rng
    kind = c.spec[0]
    if kind == 'dir':
        for k, t in enumerate(directed()):
            if k % 8 != c.spec[1]:
                continue
            for o in ([], options(rng)):
                if not run_one(c, o, t):
                    return
        return
    base = fuzz.LEMON_SEEDS
    for _ in range(PER):
        b = rng.choice(base) if kind == 'm' else fuzz.gen_l(rng)
        if kind == 'm' or rng.random() < 0.8:
            b = fuzz.mutate(rng, b, base, fuzz.LDICT)
        if not run_one(c, options(rng), b):
            return
