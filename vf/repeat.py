"""Running a generator several times under varied circumstances (checks B17, L15)."""
import os
import random
import shutil
from . import env

PLACES = ['a', 'deep/er/still/deeper', 'with space', 'b' * 120]


def variation(rng, root):
    e = {}
    what = []

    def yes(p):
        return rng.random() < p
    if yes(0.6):
        e['MALLOC_PERTURB_'] = str(rng.randint(1, 255))
        what.append('perturb')
    if yes(0.3):
        e['GLIBC_TUNABLES'] = rng.choice(['glibc.malloc.tcache_count=0', 'glibc.malloc.mmap_threshold=1', 'glibc.malloc.top_pad=1000000'])
        what.append('malloc')
    if yes(0.4):
        for i in range(rng.choice([1, 10, 400])):
            e['VAR%d_%d' % (i, rng.randint(0, 99))] = 'x' * rng.randint(0, 300)
        what.append('environ')
    if yes(0.4):
        e['LANG'] = e['LC_ALL'] = rng.choice(['C.UTF-8', 'de_DE.UTF-8', 'POSIX', 'xx'])
        e['TZ'] = rng.choice(['UTC', 'Asia/Tokyo', ':x'])
        what.append('locale')
    if yes(0.4):
        e.update(HOME=rng.choice(['/', '/nonexistent']), USER='u', LOGNAME='v', COLUMNS='7', POSIXLY_CORRECT='1', YACC='y', BISON_SIMPLE='/x', LEMON='z')
        what.append('user')
    if yes(0.5):
        t = os.path.join(root, rng.choice(['t', 'tmp with space', 't' * 100]))
        os.makedirs(t, exist_ok=True)
        e['TMPDIR'] = e['TEMP'] = t
        what.append('tmpdir')
    elif yes(0.3):
        e['TMPDIR'] = '/nonexistent'
        e['TEMP'] = root
        what.append('bad tmpdir')
    return e, what


def snapshot(d, skip):
    out = {}
    for r, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.relpath(os.path.join(r, f), d)
            if p not in skip:
                out[p] = open(os.path.join(r, f), 'rb').read()
    return out


def once(exe, name, opts, text, place, e, stale=None, pre=()):
    shutil.rmtree(place, ignore_errors=True)
    os.makedirs(place)
    with open(place + '/' + name, 'wb') as f:
        f.write(text)
    for k, v in (stale or {}).items():
        with open(place + '/' + k, 'wb') as f:
            f.write(v)
    r = env.run(list(pre) + [exe] + opts + [name], cwd=place, env=e)
    return r, snapshot(place, {name})


def diff(a, b):
    """What differs between two (Res, files) results; '' if nothing."""
    (r, f), (s, h) = a, b
    if r.rc != s.rc:
        return 'exit status %s, now %s\n%s\n%s' % (r.rc, s.rc, r.etext[:400], s.etext[:400])
    if sorted(f) != sorted(h):
        return 'files %s, now %s' % (sorted(f), sorted(h))
    for n in sorted(f):
        if f[n] != h[n]:
            x, y = f[n].split(b'\n'), h[n].split(b'\n')
            i = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
            return '%s line %d is %r, now %r' % (n, i + 1, b'\n'.join(x[i:i + 2])[:300], b'\n'.join(y[i:i + 2])[:300])
    if r.out != s.out:
        return 'standard output %r, now %r' % (r.out[:300], s.out[:300])
    if r.err != s.err:
        return 'standard error %r, now %r' % (r.err[:300], s.err[:300])
    return ''
