#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'checks')); sys.path.insert(0, V)
import registry
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in registry.CHECKS:
        c = registry.CHECKS[i]
        checks.append(dict(property=i, quick_cmd='python3 vrun.py %s' % i, thorough_cmd='python3 vrun.py %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=c['technique'], level='exploration', level_note=c['note']))
    else:
        na.append(dict(property=i, reason=registry.NOT_APPLICABLE.get(i, 'check not built yet')))
json.dump(dict(version=1, setup_cmd='python3 vrun.py --setup', checks=checks, not_applicable=na), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
