#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vp import checks
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = json.load(open(os.path.join(V, 'tools', 'not_applicable.json')))
TECH = getattr(checks, 'TECH', {})
NOTE = getattr(checks, 'NOTE', {})
ch, na = [], []
for p in props:
    i = p['id']
    if i in checks.CHECKS:
        fn, level, rule = checks.CHECKS[i]
        ch.append(dict(property=i, quick_cmd='python3 check.py %s' % i, thorough_cmd='python3 check.py %s --thorough' % i,
                       evidence_file='evidence/%s.json' % i, technique=TECH.get(i, 'static analysis: abstract interpretation of LLVM IR (affine/interval/zone domain, trace partitioning)'),
                       level=level, level_note=NOTE.get(i, rule)))
    else: na.append(dict(property=i, reason=NA.get(i, 'no check yet')))
json.dump(dict(version=1, setup_cmd='python3 setup.py', checks=ch, not_applicable=na,
               notes='Every check decides from the source: it compiles /repo to LLVM IR (or to diagnostics) and analyses that; nothing of /repo is executed. See DESIGN.md.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(ch), 'checks', len(na), 'not applicable')
