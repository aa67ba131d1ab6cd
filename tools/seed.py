#!/usr/bin/env python3
"""Confirms planted bugs (seeded/<id>/) in a scratch copy of /repo bound over /repo in a private mount namespace,
and runs the checks against them.  tools/seed.py ID... [--checks B01,L02] [--nocheck]"""
import os, sys, json, subprocess, shutil, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INNER = r'''
set -e
mount --bind "$1" /repo; S=$2; W=$3
cd /repo
git apply "$S/patch.diff"
bash /opt/vp/build.sh >$W/build.log 2>&1 || { echo "BUILD FAILED"; tail -5 $W/build.log; exit 3; }
bash /opt/vp/test.sh $W/o.json >$W/test.log 2>&1
python3 - $W/o.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); b=b["stable"]
o=set(json.load(open(sys.argv[1]))['passed'])
m=[t for t in b if t not in o]
print('tests: %d of %d pass'%(len(b)-len(m),len(b)), m[:5])
P
mkdir -p $W/d; cp -r "$S"/. $W/d; rm -f $W/d/patch.diff $W/d/meta.json
( cd /repo; timeout 300 bash $W/d/demo.sh >$W/demo1.log 2>&1 ) && echo "demo PASSES WITH PATCH" || echo "demo fails with the patch: $(tail -1 $W/demo1.log)"
git apply -R "$S/patch.diff"; bash /opt/vp/build.sh >/dev/null 2>&1
( cd /repo; timeout 300 bash $W/d/demo.sh >$W/demo0.log 2>&1 ) && echo "demo ok on the unchanged tree" || { echo "DEMO FAILS UNCHANGED"; tail -3 $W/demo0.log; }
git apply "$S/patch.diff"
'''
args = [a for a in sys.argv[1:] if not a.startswith('--')]
checks = next((a.split('=')[1].split(',') for a in sys.argv if a.startswith('--checks=')), None)
for i in args:
    S = os.path.join(ROOT, 'seeded', i); meta = json.load(open(S + '/meta.json'))
    W = tempfile.mkdtemp(prefix='seed-')
    try:
        subprocess.run(['cp', '-a', '/repo/.', W + '/r'])
        print('==', i, meta['property'], flush=True)
        if '--only' not in sys.argv:
            r = subprocess.run(['unshare', '-Urm', 'bash', '-c', INNER, 'x', W + '/r', S, W])
            if r.returncode: continue
        else: subprocess.run(['git', 'apply', S + '/patch.diff'], cwd=W + '/r')
        if '--nocheck' in sys.argv: continue
        for k in checks or [meta['property']]:
            r = subprocess.run(['python3', 'run.py', k, 'quick'], cwd=ROOT, env=dict(os.environ, VF_REPO=W + '/r'), capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if 'VIOLATION' in l]
            print('  ', k, 'rc', r.returncode, len(v), 'violations', '|', r.stdout.strip().splitlines()[-1:], flush=True)
    finally: shutil.rmtree(W)
