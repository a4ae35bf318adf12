#!/usr/bin/env python3
"""writes MANIFEST.json from registry.META"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks = []
for p in props:
    if p in registry.CHECKS:
        t, note = registry.META[p]
        checks.append({'property': p, 'quick_cmd': 'python3 check.py %s quick' % p,
                       'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s thorough' % p,
                       'evidence_file': 'evidence/%s.json' % p, 'technique': t, 'level': 'model_checking', 'level_note': note})
m = {'version': 1, 'setup_cmd': 'python3 check.py setup', 'checks': checks,
     'not_applicable': [{'property': p, 'reason': registry.NA.get(p, 'check not built yet')} for p in props if p not in registry.CHECKS],
     'notes': 'TLA+ (TLC). No hooks are committed in /repo: the runner and the worker count setters are added at build time through go build -overlay.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
