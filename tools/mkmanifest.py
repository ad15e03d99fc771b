#!/usr/bin/env python3
"""Generates MANIFEST.json from checks/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'checks'))
from registry import CHECKS, TECH, NA
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []; na = []
for p in props:
    i = p['id']
    if i in CHECKS:
        t, note = TECH[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=t, level='other', level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check under construction; not claimed yet')))
m = dict(version=1, setup_cmd='python3 tools/setup.py', hooks=dict(guard='none', enable='no hooks are needed: the driver reads the MIR of the unmodified crate', source_commits=[]),
         checks=checks, not_applicable=na,
         notes='All checks read the MIR of /repo\'s current tree through driver/ (a rustc_private dump tool run as RUSTC_WORKSPACE_WRAPPER under cargo check); nothing from /repo is executed. Known findings: known_findings.json.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
