"""Building the generators from /repo's working tree and running processes under watch."""
import os, subprocess, shutil, signal, resource, glob, re, time, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
SAN_RC = 77
resource.setrlimit(resource.RLIMIT_CORE, (0, 0))      # inherited; sanitizers must not change it themselves (disable_coredump=0)
NCPU = os.cpu_count() or 4

BASE_ENV = {
    'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', 'LC_ALL': 'C', 'HOME': '/tmp',
    'ASAN_OPTIONS': 'detect_leaks=0:exitcode=%d:abort_on_error=0:detect_stack_use_after_return=0:'
                    'allocator_may_return_null=1:disable_coredump=0:symbolize=1:print_legend=0' % SAN_RC,
    'UBSAN_OPTIONS': 'exitcode=%d:print_stacktrace=1' % SAN_RC,
    'LSAN_OPTIONS': 'exitcode=%d' % SAN_RC,
    'MSAN_OPTIONS': 'exitcode=%d' % SAN_RC,
    'TSAN_OPTIONS': 'exitcode=%d:halt_on_error=1' % SAN_RC,
}
SAN_PAT = re.compile(rb'runtime error:|ERROR: \w+Sanitizer|WARNING: ThreadSanitizer|SUMMARY: \w+Sanitizer')


class HarnessError(Exception):
    """Something the check itself could not do: never a verdict about the code under test."""


class BuildError(Exception):
    pass


class Res:
    __slots__ = ('rc', 'out', 'err', 'hang', 'slow', 'san', 'sig', 'cmd')

    @property
    def text(self):
        return self.out.decode('latin-1')

    @property
    def etext(self):
        return self.err.decode('latin-1')

    def bad(self):
        """A verdict-bearing abnormal ending: sanitizer report, fatal signal or endless loop; else ''."""
        if self.san:
            m = re.search(r'(runtime error: [^\n]*|(?:ERROR|WARNING): \w+Sanitizer:? [^\n]*)', self.etext)
            return 'sanitizer: ' + (m.group(1)[:200] if m else '?')
        if self.hang:
            return 'does not terminate'
        if self.sig:
            return 'killed by signal %d' % self.sig
        return ''


def run(cmd, inp=b'', cwd=None, env=None, cpu=25, wall=150, fsize=256 << 20, retry=True, files=None, umask=None):
    """Run a command; CPU seconds decide about hangs, the wall clock only guards the harness."""
    e = dict(BASE_ENV)
    if env:
        for k, v in env.items():
            if v is None:
                e.pop(k, None)
            else:
                e[k] = v
    if isinstance(inp, str):
        inp = inp.encode('latin-1')
    tmp = cwd or '/tmp'
    import tempfile
    fi = tempfile.TemporaryFile()
    fo = tempfile.TemporaryFile()
    fe = tempfile.TemporaryFile()
    fi.write(inp)
    fi.seek(0)
    p = subprocess.Popen(cmd, stdin=fi, stdout=fo, stderr=fe, cwd=cwd, env=e, start_new_session=True, close_fds=True)
    try:
        resource.prlimit(p.pid, resource.RLIMIT_CPU, (cpu, cpu + 2))
        resource.prlimit(p.pid, resource.RLIMIT_FSIZE, (fsize, fsize))
    except ProcessLookupError:
        pass
    slow = False
    try:
        p.wait(wall)
    except subprocess.TimeoutExpired:
        slow = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    fo.seek(0)
    fe.seek(0)
    r = Res()
    r.cmd = cmd
    r.out, r.err = fo.read(), fe.read(4 << 20)
    for f in (fi, fo, fe):
        f.close()
    r.rc = p.returncode
    r.sig = -p.returncode if p.returncode < 0 else 0
    r.hang = r.sig in (signal.SIGXCPU,) or (r.sig == signal.SIGKILL and not slow)
    r.slow = slow
    r.san = (r.rc == SAN_RC or r.sig != 0 or r.rc in (1, 134)) and bool(SAN_PAT.search(r.err)) or r.rc == SAN_RC
    if (r.hang or slow) and retry:
        return run(cmd, inp, cwd, env, cpu * 3, wall * 2, fsize, retry=False)
    return r


def sh(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, env=BASE_ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return r.returncode, r.stdout.decode('latin-1')


def _cc(job):
    rc, out = sh(job)
    return rc, out, job


class Tools:
    """Generators built from the working tree: names are byacc, nbyacc (no btyacc), lemon, each also with suffix '-san'."""

    def __init__(self, scratch, want, cc='gcc'):
        self.dir = os.path.join(scratch, 'tools')
        os.makedirs(self.dir, exist_ok=True)
        self.cc = cc
        self.build(want)

    def path(self, n):
        return os.path.join(self.dir, n)

    def build(self, want):
        jobs = []
        links = []
        ver = open(os.path.join(REPO, 'byacc/VERSION')).read().strip()
        for w in want:
            base, _, suf = w.partition('-')
            cc = 'clang' if suf == 'msan' else self.cc
            flags = ['-g', '-w']
            if suf == 'san':
                flags += ['-O1'] + SAN
            elif suf == 'msan':
                flags += ['-O1', '-fsanitize=memory', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
            elif suf == 'cov':
                flags += ['-O0', '--coverage']
            else:
                flags += ['-O1']
            if base in ('byacc', 'nbyacc'):
                src = os.path.join(REPO, 'byacc')
                inc = os.path.join(self.dir, 'src-' + base)
                if not os.path.isdir(inc):
                    os.makedirs(inc)
                    for f in glob.glob(src + '/*.c') + glob.glob(src + '/*.h'):
                        shutil.copy(f, inc)
                    if base == 'nbyacc':
                        c = open(inc + '/config.h').read()
                        c2 = re.sub(r'(?m)^#define\s+YYBTYACC\b.*$', '/* #undef YYBTYACC */', c)
                        if c2 == c:
                            raise HarnessError('config.h: no YYBTYACC to disable')
                        open(inc + '/config.h', 'w').write(c2)
                skip = {'btyaccpar.c' if base == 'nbyacc' else 'yaccpar.c'}
                objs = []
                od = os.path.join(self.dir, 'obj-' + w)
                os.makedirs(od, exist_ok=True)
                for f in sorted(glob.glob(inc + '/*.c')):
                    b = os.path.basename(f)
                    if b in skip:
                        continue
                    o = os.path.join(od, b[:-2] + '.o')
                    objs.append(o)
                    jobs.append([cc] + flags + ['-I' + inc, '-DHAVE_CONFIG_H', '-DYYPATCH=' + ver, '-D_DEFAULT_SOURCE',
                                                     '-D_XOPEN_SOURCE=500', '-c', f, '-o', o])
                links.append([cc] + flags + objs + ['-o', self.path(w)])
            elif base == 'lemon':
                o = self.path(w) + '.o'
                jobs.append([cc] + flags + ['-c', os.path.join(REPO, 'lemon/lemon.c'), '-o', o])
                links.append([cc] + flags + [o, '-o', self.path(w)])
                shutil.copy(os.path.join(REPO, 'lemon/lempar.c'), self.path('lempar.c'))
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for batch in (jobs, links):
                for rc, out, job in ex.map(_cc, batch):
                    if rc:
                        raise BuildError('building the generators failed: %s\n%s' % (' '.join(job), out[:4000]))


def compile_c(srcs, out, flags=(), san=True, opt='-O0', cwd=None, cc='gcc', cxx=False):
    cmd = [cc, '-g0' if not san else '-g1', '-w', opt] + (SAN if san else []) + list(flags) + list(srcs) + ['-o', out]
    return sh(cmd, cwd)


def clang_msan(cwd, src, out, flags=()):
    """Builds with clang's MemorySanitizer; (rc, stdout, stderr)."""
    rc, msg = sh(['clang', '-g1', '-w', '-O0', '-fsanitize=memory', '-fno-sanitize-recover=all'] + list(flags) + [src, '-o', out], cwd)
    return rc, '', msg
