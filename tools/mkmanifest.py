#!/usr/bin/env python3
"""Regenerate MANIFEST.json from the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(V, 'tools', 'techniques.json')))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')) and i in TECH:
        checks.append({'property': i, 'quick_cmd': './run.py %s' % i, 'thorough_cmd': './run.py %s --tier thorough' % i,
          'evidence_file': 'evidence/%s.json' % i, 'technique': TECH[i][0], 'level': 'exploration', 'level_note': TECH[i][1]})
    else:
        na.append({'property': i, 'reason': 'check not built yet (work in progress); the technique applies'})
m = {'version': 1, 'setup_cmd': 'python3-vt -c "import hypothesis"', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent = 1)
print(len(checks), 'checks;', [x['property'] for x in na])
