#!/usr/bin/env python3
"""addfix.py PROPERTY WHAT [COMMIT]: record a repaired defect in known_findings.json"""
import json, subprocess, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fn = os.path.join(V, 'known_findings.json')
d = json.load(open(fn))
c = sys.argv[3] if len(sys.argv) > 3 else subprocess.check_output(['git', '-C', '/repo', 'rev-parse', '--short', 'HEAD'], text = True).strip()
d['fixed'].append('fixed: property=%s %s %s' % (sys.argv[1], c, sys.argv[2]))
json.dump(d, open(fn, 'w'), indent = 1)
