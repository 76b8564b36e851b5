#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and harness/specs.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/harness'); sys.dont_write_bytecode = True
import specs
checks, na = [], []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l); i = p['id']; s = specs.SPECS.get(i)
    if not s: na.append(dict(property=i, reason='no check built yet')); continue
    b = s['bounds']('quick') if callable(s['bounds']) else s['bounds']
    checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i, evidence_file='evidence/%s.json' % i, level='model_checking',
      technique='symbolic execution of the LLVM IR of the current sources, Z3 deciding every assertion for all values within the bounds; counterexamples replayed natively with ASan/UBSan',
      level_note='Bounded: ' + b + ('. Outside: ' + s['outside'] if s.get('outside') else '') + '.'))
json.dump(dict(version=1, setup_cmd='bash engine/build.sh', checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
