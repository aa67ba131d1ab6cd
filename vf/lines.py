"""Marked code for checking #line directives: every piece of copied code carries unique markers whose true position is known."""
import os, random, re
from . import env


class Text:
    def __init__(self, rng, fname):
        self.rng, self.buf, self.n, self.where = rng, '', 0, {}
        self.file, self.delta = fname, 0
        self.exempt = set()
        self.lines = True

    def put(self, s):
        self.buf += s

    def bol(self):
        if self.buf and not self.buf.endswith('\n'):
            self.buf += '\n'

    def mark(self, exempt=False):
        self.n += 1
        m = 'vfm_%d_' % self.n
        self.where[m] = (self.file, self.buf.count('\n') + 1 + self.delta)
        if exempt:
            self.exempt.add(m)
        self.buf += m

    def renumber(self):
        """A #line directive in the grammar."""
        self.bol()
        r = self.rng
        n = r.choice([1, 2, 77, 1000, 32767, 70000])
        f = r.choice(['other.x', 'o', 'a much longer name of some other file than the name of the grammar.y', 'sub/dir/o.y', self.file])
        self.put('%s#%sline %d "%s"\n' % (r.choice(['', '', ' ']), r.choice(['', '', ' ', '\t']), n, re.sub(r'(["\\])', r'\\\1', f)))
        self.file = f
        self.delta = n - self.buf.count('\n') - 1

    def code(self, stmts=True, braces=True, dollar=()):
        """Some lines of C code, each with a marker."""
        r = self.rng
        if r.random() < 0.6:
            self.put(r.choice(['\n', ' ', ' \n', '\n\n', '  \n  ', ' /* x */ ', '\n/* y\n */\n']))
        for k in range(r.choice([1, 1, 2, 3, 5])):
            p = r.random()
            if p < 0.15:
                self.put('/* ')
                self.mark()
                self.put(r.choice(['', '\n', '\n\n', "it's } ", ' " {\n', '// ', '%} ']) + ' ')
                self.mark()
                self.put(r.choice([' */', ' */', ' **/', " ' */"]))
            elif p < 0.25:
                self.put(r.choice(['// ', '// ', "// it's } ", '// " { ', '// /* ']))
                self.mark()
                self.put('\n')
            elif p < 0.35 and stmts:
                self.put('"a %s\\\\ \\" " ' % r.choice(['', ';', '$', '@', '\\n', '/*', '\\\n', '}', '{', '//', "'", '*/', '%}']))
                self.mark()
                self.put(';')
            elif p < 0.42 and stmts:
                self.put(r.choice(["'}' ", "'{' ", "'\"' ", "'\\'' ", "'\\\\' ", "'/' ", "'*' "]))
                self.mark()
                self.put(';')
            elif p < 0.5 and braces:
                self.put('{ ')
                self.mark()
                self.put(r.choice([' ', '\n']))
                self.mark()
                self.put('; }')
            elif p < 0.6:
                self.bol()
                self.put('#if 1 ')
                self.put('\n')
                self.mark()
                self.put(';\n#endif\n')
            else:
                for d in dollar:
                    if r.random() < 0.3:
                        self.put(r.choice(dollar) + ' ')
                self.mark()
                self.put(';')
            self.put(r.choice(['\n', '\n', ' ', '\n\n', ' /* c */ ']))
        self.mark()
        if r.random() < 0.7:
            self.put(';')
        self.put(r.choice(['', ' ', '\n', '\n  ', '\n\n']))

    def gap(self):
        self.put(self.rng.choice(['\n', '\n', '\n', ' ', '\n\n', ' /* \n */ ', '\n// x\n', '\n/* a\n b */\n']))


LINE = re.compile(r'#line (\d+) "((?:[^"\\]|\\.)*)"$')
ESC = re.compile(r'\\(.)')


def walk(c, name, text, t, lflag, header, iflag=False, lost=None):
    """Compare every directive and marker of one generated file; returns a message or None."""
    cur, off = name, 0          # position of physical line i is (cur, i + off)
    seen, drift = set(), None
    lines = text.split('\n')
    after_end, late = False, None      # a header never returns to its own positions after %code
    for i, ln in enumerate(lines, 1):
        if '#line' in ln and '<lineno>' not in ln:
            if lflag:
                return seen, ('lflag', '%s:%d: a #line directive in spite of -l: %s' % (name, i, ln))
            m = LINE.match(ln)
            if not m:
                return seen, ('syntax', '%s:%d: not a #line directive C understands: %s' % (name, i, ln))
            n, f = int(m.group(1)), ESC.sub(r'\1', m.group(2))
            if os.path.normpath(f) == os.path.normpath(name):
                f = name
            cur, off = f, n - i - 1
            after_end = False
            nxt = lines[i] if i < len(lines) else ''
            if f == name and off and iflag and not nxt.startswith('#line') and drift in (None, off):
                drift = off     # byacc -i: see known-findings.txt
                late = ('self-interface', '%s:%d: "%s", but the next line is line %d of that file' % (name, i, ln, i + 1))
                continue
            if f == name and off and not nxt.startswith('#line'):
                return seen, ('self', '%s:%d: "%s", but the next line is line %d of that file' % (name, i, ln, i + 1))
            c.evals += 1
            continue
        if ln.startswith('/* %code ') and ln.endswith(' block end */'):
            after_end = True
        for m in re.findall(r'vfm_\d+_', ln):
            if m not in t.where:
                return seen, ('marker', '%s:%d: unknown marker' % (name, i))
            if m in t.exempt:
                continue
            seen.add(m)
            c.evals += 1
            if lflag:
                continue
            pos = (cur, i + off)
            if cur == name and (off == 0 or off == drift):
                if lost:
                    msg = lost(m, ln)
                    if msg:
                        return seen, ('lost', '%s:%d: %s: %s' % (name, i, msg, ln[:80]))
                continue
            if pos != t.where[m] and header and after_end:
                late = late or ('header-union', '%s:%d: the compiler takes this for %s line %d, but it comes from %s line %d: %s' % ((name, i) + pos + t.where[m] + (ln[:80],)))
                continue
            if pos != t.where[m]:
                return seen, ('copied', '%s:%d: the compiler takes this for %s line %d, but it comes from %s line %d: %s' % ((name, i) + pos + t.where[m] + (ln[:80],)))
    return seen, late


def cpp_check(c, f, t):
    """Let the C preprocessor give each marker its __LINE__ and __FILE__."""
    e = env.run(['gcc', '-E', '-P', '-w'] + ['-D%s=%s __LINE__ __FILE__' % (m, m) for m in t.where] + [os.path.join('.', f)], cwd=c.dir, inp=b'', cpu=20)
    if e.slow:
        return None
    for m, n, fn in re.findall(r'(vfm_\d+_) (\d+) "((?:[^"\\]|\\.)*)"', e.text):
        fn = ESC.sub(r'\1', fn)
        c.count('positions from the C preprocessor')
        if m in t.exempt or os.path.normpath(fn) == os.path.normpath(f) or fn.endswith('.h') or fn.endswith('.i'):
            continue
        if (fn, int(n)) != t.where[m]:
            return 'the C preprocessor takes %s in %s for line %s of %s, but it comes from line %d of %s' % ((m, f, n, fn) + t.where[m][::-1])
