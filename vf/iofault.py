"""Running a generator while chosen operations on its files fail (checks B16, L16)."""
import errno
import os
import random
import shutil
import signal
import subprocess
import time
from . import env

ERR = {'open': [errno.EACCES, errno.EMFILE, errno.ENOSPC], 'fdopen': [errno.ENOMEM], 'mkstemp': [errno.EACCES, errno.ENOSPC],
       'read': [errno.EIO], 'write': [errno.ENOSPC, errno.EIO], 'close': [errno.ENOSPC, errno.EIO]}


def prepare(ctx):
    ctx.inject = os.path.join(ctx.scratch, 'inject.so')
    rc, out = env.sh(['gcc', '-O1', '-w', '-shared', '-fPIC', os.path.join(env.VERIF, 'vf/iofault.c'), '-o', ctx.inject, '-ldl'])
    if rc:
        raise env.BuildError(out)
    rc, out = env.sh(['gcc', '-print-file-name=libasan.so'])
    ctx.asan = out.strip()


class Work:
    """A scratch directory with the inputs of one command, its files and what it left."""

    def __init__(self, ctx, c, name, files, dirs=()):
        self.ctx, self.c = ctx, c
        self.dir = c.path(name)
        self.files, self.dirs = files, dirs

    def fresh(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir + '/tmp')
        for d in self.dirs:
            os.makedirs(self.dir + '/' + d)
        for f, t in self.files.items():
            with open(self.dir + '/' + f, 'wb') as fh:
                fh.write(t)

    def state(self):
        out = {}
        for r, ds, fs in os.walk(self.dir):
            for f in fs:
                p = os.path.join(r, f)
                k = os.path.relpath(p, self.dir)
                if k != 'io.log':
                    out[k] = b'-> ' + os.readlink(p).encode() if os.path.islink(p) else open(p, 'rb').read()
        return out

    def run(self, cmd, plan=None, buf=None, inject=True, san=True, limit=None):
        e = {'TMPDIR': self.dir + '/tmp', 'TEMP': self.dir + '/tmp'}
        if inject:
            e['LD_PRELOAD'] = (self.ctx.asan + ' ' if san else '') + self.ctx.inject
            e['VFIO_LOG'] = self.dir + '/io.log'
            if plan:
                e['VFIO'] = plan
            if buf:
                e['VFIO_BUF'] = str(buf)
        kw = {}
        if limit is not None:
            # set before the program starts (env.run sets its limits while it may already be running)
            cmd = ['sh', '-c', 'trap "" XFSZ; exec prlimit --fsize=%d -- "$@"' % limit, 'sh'] + cmd
            kw['fsize'] = limit
        r = env.run(cmd, cwd=self.dir, env=e, **kw)
        log = []
        if os.path.exists(self.dir + '/io.log'):
            for l in open(self.dir + '/io.log', encoding='latin-1'):
                log.append(l.split())
        return r, log


def judge(c, W, r, base, inputs, what, files, fired=None, must=False, sentinels=True):
    """base: files of the run without faults.  must: only a nonzero exit will do."""
    st = W.state()
    left = [f for f in st if f.startswith('tmp/')]
    fl = dict(files)
    fl['stderr'] = r.err
    fl['what'] = what + '\n'
    if r.slow:
        c.inconclusive('slow')
        return False
    if r.bad():
        c.violation('crash', '%s: %s\n%s' % (what, r.bad(), r.etext[:1500]), fl)
        return False
    if left:
        c.violation('temporary', '%s: temporary files left behind: %s' % (what, left), fl)
        return False
    for f, t in inputs.items():
        if st.get(f) != t:
            c.violation('other-file', '%s: %s, which is no output file, was changed' % (what, f), fl)
            return False
    extra = set(st) - set(base)
    if extra:
        c.violation('other-file', '%s: wrote %s, which the run without faults does not' % (what, sorted(extra)), fl)
        return False
    if r.rc == 0:
        if must:
            c.violation('success', '%s: exit status 0' % what, fl)
            return False
        bad = [f for f in base if st.get(f) != base[f]]
        if bad:
            c.violation('incomplete', '%s: exit status 0, but %s' % (what, ', '.join('%s has %s of %d bytes' % (
                f, len(st[f]) if f in st else 'no', len(base[f])) for f in bad)), fl)
            return False
    elif not r.err.strip():
        c.violation('no-message', '%s: exit status %d without a message' % (what, r.rc), fl)
        return False
    return True
