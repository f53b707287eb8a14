#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and specs.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import specs
TECH = 'symbolic execution of the LLVM bitcode of the real code; SMT (Z3, bit-vectors) decides every branch and assertion'
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks, na = [], []
for i in ids:
    if i in specs.PROPS:
        s = specs.PROPS[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i, evidence_file='evidence/%s.json' % i,
          technique=TECH, level='model_checking',
          level_note='Every path of the real code within the bounds is decided by the solver; counterexamples are replayed natively against real libxml2 before being reported. Bounds (quick): ' +
            '; '.join(j['entry'] + ': ' + j['bounds']['quick'] for j in s['jobs']) + '. Outside: ' + s.get('outside', 'longer inputs') + '. Trusts: clang bitcode, Z3, the libc and libxml2 models.'))
    else: na.append(dict(property=i, reason=specs.NA.get(i, 'not built yet')))
json.dump(dict(version=1, setup_cmd='python3 check.py setup', checks=checks, not_applicable=na,
  notes='The executor is /verif/engine (C++ over LLVM 18 bitcode and Z3); check.py rebuilds the bitcode of /repo on every run. See DESIGN.md.'),
  open(V + '/MANIFEST.json', 'w'), indent=1)
