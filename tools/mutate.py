#!/usr/bin/env python3
"""Mutation campaign: random one-token changes of the sources that still pass the repository's tests, and which check sees
them.  tools/mutate.py SEED COUNT LOG [--limit=N] [--files=a.c,b.c]; survivors are listed in LOG for review."""
import os, sys, re, random, subprocess, shutil, tempfile, json, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith('--')]
opt = dict(a[2:].split('=', 1) for a in sys.argv[1:] if a.startswith('--'))
rng = random.Random(int(args[0]))
N, LOG = int(args[1]), args[2]
LIMIT = opt.get('limit', '150')
BY = 'B01 B02 B05 B04 B06 B03 B10 B18 B13 B14 B12 B11 B08 B09 B19 B15 B16 B17 B07 X01'.split()
LE = 'L01 L02 L03 L04 L05 L06 L08 L14 L11 L10 L09 L13 L15 L07 L12 L16 L17 X01'.split()
FILES = {'byacc/' + x: BY for x in 'closure.c graph.c lalr.c lr0.c main.c mkpar.c mstring.c output.c output.c output.c reader.c reader.c reader.c reader.c reader.c symtab.c verbose.c warshall.c'.split()}
WEIGHT = {'byacc/reader.c': 8, 'byacc/output.c': 4, 'byacc/main.c': 2, 'byacc/mkpar.c': 2, 'byacc/verbose.c': 2, 'lemon/lemon.c': 18, 'lemon/lempar.c': 4}
FILES.update({'lemon/lemon.c': LE, 'lemon/lempar.c': LE})
if 'files' in opt:
    FILES = {k: v for k, v in FILES.items() if k in opt['files'].split(',')}
PREF = {'byacc/graph.c': ['B03'], 'byacc/verbose.c': ['B03'], 'byacc/main.c': ['B09', 'B16'], 'byacc/mstring.c': ['B04', 'B06', 'B15'],
        'byacc/reader.c': ['B18', 'B01', 'B10', 'B04', 'B13'], 'lemon/lempar.c': ['L01', 'L06', 'L05', 'L07']}


def mutants(line):
    s = line
    out = []
    if re.match(r'\s*(#|//|\*|/\*)', s) or not s.strip():
        return out
    for a, bs in (('<=', ['<', '>']), ('>=', ['>', '<']), ('==', ['!=']), ('!=', ['==']), ('&&', ['||']), ('||', ['&&']), ('++', ['--']), ('--', ['++']), ('+=', ['-=']), ('-=', ['+='])):
        for m in re.finditer(re.escape(a), s):
            out += [s[:m.start()] + b + s[m.end():] for b in bs]
    for m in re.finditer(r'(?<![<>=\-])([<>])(?![<>=])', s):
        out.append(s[:m.start()] + m.group() + '=' + s[m.end():])
    for m in re.finditer(r' ([+-]) ', s):
        out.append(s[:m.start()] + (' - ' if m.group(1) == '+' else ' + ') + s[m.end():])
    for m in re.finditer(r'(?<![\w."\'\\%])(\d+)(?![\w."\'])', s):
        v = int(m.group())
        out += [s[:m.start()] + str(v + 1) + s[m.end():]] + ([s[:m.start()] + str(v - 1) + s[m.end():]] if v else [])
    if re.match(r'\s*[\w>.*\[\]()\-+]+ *(=|\+=|-=|\|=)[^=].*;\s*$', s) or re.match(r'\s*\w+\(.*\);\s*$', s) or re.match(r'\s*(\+\+|--)?[\w>.*\[\]\-]+(\+\+|--)?;\s*$', s):
        out += [re.match(r'\s*', s).group() + ';'] * 3
    m = re.match(r'(\s*(?:else )?if *)\((.*)\)(\s*\{?\s*)$', s)
    if m and m.group(2).count('(') == m.group(2).count(')'):
        out += [m.group(1) + '(!(' + m.group(2) + '))' + m.group(3)]
    for m in re.finditer(r'\b(break|continue);', s):
        out.append(s[:m.start()] + ';' + s[m.end():])
    m = re.search(r"'(\\?.)'", s)
    if m and rng.random() < 0.3:
        out.append(s[:m.start()] + "'~'" + s[m.end():])
    return out


INNER = r'''
mount --bind "$1" /repo; W=$2
bash /opt/vp/build.sh >$W/build.log 2>&1 || exit 3
timeout 120 bash /opt/vp/test.sh $W/o.json >$W/test.log 2>&1 || true
python3 - $W/o.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))["stable"]
try: o=set(json.load(open(sys.argv[1]))['passed'])
except Exception: sys.exit(4)
sys.exit(4 if any(t not in o for t in b) else 0)
P
'''
W = tempfile.mkdtemp(prefix='mut-')
subprocess.run(['cp', '-a', '/repo/.', W + '/r'], check=True)
os.makedirs(W + '/t')
names = [f for f in FILES for _ in range(WEIGHT.get(f, 1))]
log = open(LOG, 'a')


def say(*a):
    print(*a, file=log, flush=True)


def obj(f):
    flags = ['-DHAVE_CONFIG_H', '-DYYBTYACC', '-I' + W + '/r/byacc'] if f.startswith('byacc') else []
    r = subprocess.run(['gcc', '-O1', '-w', '-c', '-o', W + '/x.o'] + flags + [W + '/r/' + f], capture_output=True)
    if r.returncode:
        return None
    subprocess.run(['strip', W + '/x.o'])
    return open(W + '/x.o', 'rb').read()


ref = {}
done = 0
try:
    while done < N:
        f = rng.choice(names)
        path = W + '/r/' + f
        text = open(path, encoding='latin-1').read()
        lines = text.split('\n')
        i = rng.randrange(len(lines))
        ms = mutants(lines[i])
        if not ms:
            continue
        new = rng.choice(ms)
        if f not in ref:
            ref[f] = None if f.endswith('lempar.c') else obj(f)
        open(path, 'w', encoding='latin-1').write('\n'.join(lines[:i] + [new] + lines[i + 1:]))
        try:
            o = None if f.endswith('lempar.c') else obj(f)
            if not f.endswith('lempar.c') and (o is None or o == ref[f]):
                continue
            if f.startswith('byacc'):
                r = subprocess.run(['unshare', '-Urm', 'bash', '-c', INNER, 'x', W + '/r', W + '/t'], capture_output=True)
                if r.returncode:
                    continue
            done += 1
            t0 = time.time()
            who = None
            order = PREF.get(f, []) + [x for x in FILES[f] if x not in PREF.get(f, [])]
            for k in order:
                r = subprocess.run(['python3', 'run.py', k, 'quick', '--limit', LIMIT], cwd=ROOT, env=dict(os.environ, VF_REPO=W + '/r'), capture_output=True, text=True)
                if r.returncode:
                    who = k + ('' if r.returncode == 1 else ' rc %d' % r.returncode)
                    break
            say('%s %s:%d %s\n    - %s\n    + %s  (%d s)' % ('killed by ' + who if who else 'SURVIVES', f, i + 1, '', lines[i].strip(), new.strip(), time.time() - t0))
        finally:
            open(path, 'w', encoding='latin-1').write(text)
finally:
    shutil.rmtree(W)
