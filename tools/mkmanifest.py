#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist."""
import os, sys, json, importlib
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
NA = {}
checks, na = [], []
for p in props:
    i = p['id']
    if not os.path.exists(os.path.join(ROOT, 'vf/checks', i.lower() + '.py')):
        na.append(dict(property=i, reason=NA.get(i, 'no check has been built for it yet')))
        continue
    m = importlib.import_module('vf.checks.' + i.lower())
    checks.append(dict(property=i, quick_cmd='python3 run.py %s quick' % i, thorough_cmd='python3 run.py %s thorough' % i,
                       evidence_file='evidence/%s.json' % i, technique=m.TECH, level=getattr(m, 'LEVEL', 'exploration'), level_note=m.NOTE))
man = dict(version=1, setup_cmd='python3 selftest.py', checks=checks, not_applicable=na)
json.dump(man, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
