"""B17: byacc's output depends on nothing but its input and options."""
import os
import random
from .. import env, fuzz, repeat
from . import b15

TECH = 'runtime monitoring: MemorySanitizer build of the real byacc, and repeated runs under varied environments, memory contents, directories and builds compared byte for byte'
NOTE = ('Held on the executions observed. Besides byte comparison the MemorySanitizer run would report any use of uninitialised memory that can influence the output.')
TOOLS = ['byacc', 'nbyacc', 'byacc-san', 'nbyacc-san', 'byacc-msan', 'nbyacc-msan']
RULE = ('one evaluation = one further run of byacc on the same grammar and options under changed circumstances, or under MemorySanitizer, exit status, messages and every file compared '
        'with the first run; distinct nontrivial = distinct (grammar, options, circumstances)')
ASSUMES = ['the program is called by the same name (messages start with it)', 'clang\'s MemorySanitizer interceptors model libc correctly']


def plan(ctx):
    k = 8 if ctx.thorough else 1
    out = [['test', i] for i in range(60 * k)] + [['gen', i] for i in range(70 * k)] + [['mut', i] for i in range(60 * k)]
    random.Random(ctx.seed).shuffle(out)
    return out


OPTS = ['-B', '-c', '-C', '-d', '-e', '-E', '-g', '-i', '-l', '-L', '-n', '-N', '-P', '-r', '-s', '-S', '-t', '-v', '-u', '-z']


def case(ctx, c):
    rng = c.rng
    base = fuzz.base_y()
    variant = rng.choice(['byacc', 'byacc', 'nbyacc'])
    if c.spec[0] == 'test':
        text = base[c.spec[1] % len(base)]
    elif c.spec[0] == 'gen':
        text = fuzz.gen_y(rng)
    else:
        text = fuzz.mutate(rng, rng.choice([rng.choice(base), fuzz.gen_y(rng)]), base, fuzz.YDICT)
    if b15.big(text):
        return
    opts = [x for x in OPTS if rng.random() < rng.choice([0.1, 0.3, 0.8])]
    if '-n' in opts and '-N' in opts:
        opts.remove('-N')
    if rng.random() < 0.3:
        opts += [rng.choice(['-p', '-b']), rng.choice(['zz', 'qq'])]
    if rng.random() < 0.2 and '-b' not in opts:
        opts += ['-o', rng.choice(['out.c', 'o.tab.c', 'x'])]
    name = rng.choice(['g.y', 'grammar.y', 'g'])
    exe = ctx.tool(variant)
    root = c.path('r')
    os.makedirs(root)
    fl = {name: text, 'cmd': '%s %s %s\n' % (variant, ' '.join(opts), name)}
    ref = repeat.once(exe, name, opts, text, root + '/a', {})
    if ref[0].slow:
        c.inconclusive('slow')
        return
    if ref[0].bad():
        return                                      # B15 judges
    c.count('accepted' if ref[0].rc == 0 else 'rejected')
    # byacc names itself in messages: the same path must be used, so builds are swapped behind one name
    link = c.path('tool')

    def through(build):
        if os.path.lexists(link):
            os.unlink(link)
        os.symlink(ctx.tool(build), link)
        return link
    ref = repeat.once(through(variant), name, opts, text, root + '/a', {})
    n = 14 if ctx.thorough else 5
    for i in range(n):
        e, what = repeat.variation(rng, root)
        place = root + '/' + rng.choice(repeat.PLACES)
        stale = None
        if rng.random() < 0.4:
            stale = {k: rng.choice([b'', b'old\n' * 9000, v]) for k, v in ref[1].items()}
            what.append('old files')
        pre = []
        if rng.random() < 0.3:
            pre = ['sh', '-c', rng.choice(['umask 077; exec "$@"', 'ulimit -s 65536; exec "$@"', 'exec "$@" 3</dev/null 4</dev/null', 'umask 0; exec "$@" </dev/null']), 'sh']
            what.append('process')
        build = variant
        if rng.random() < 0.25:
            build += '-san'
            what.append('other build')
        got = repeat.once(through(build), name, opts, text, place, e, stale, pre)
        c.evals += 1
        c.saw(text, opts, variant, what, sorted(e))
        for w in what:
            c.count(w)
        if got[0].slow:
            c.inconclusive('slow')
            return
        if got[0].bad():
            return
        d = repeat.diff(ref, (got[0], {k: v for k, v in got[1].items() if not (stale and k not in ref[1])}))
        if d:
            fl['environment'] = repr(e)
            c.violation('differs', '%s %s: %s (%s)' % (variant, ' '.join(opts), d, ', '.join(what) or 'nothing changed'), fl)
            return
    got = repeat.once(through(variant + '-msan'), name, opts, text, root + '/m', {})
    c.evals += 1
    c.count('MemorySanitizer runs')
    c.saw(text, opts, variant, 'msan')
    if got[0].slow:
        c.inconclusive('slow')
        return
    if got[0].san:
        c.violation('uninitialised', '%s %s: %s\n%s' % (variant, ' '.join(opts), got[0].bad(), got[0].etext[:2500]), fl)
        return
    d = repeat.diff(ref, got)
    if d:
        c.violation('differs', '%s %s under MemorySanitizer: %s' % (variant, ' '.join(opts), d), fl)
        return
    c.sample(dict(options=opts, files={k: len(v) for k, v in ref[1].items()}, rc=ref[0].rc))
