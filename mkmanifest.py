#!/usr/bin/env python3
"""MANIFEST.json from the property modules present in props/"""
import json, os, sys, importlib
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
NA = {}
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    if os.path.exists(os.path.join(here, 'props', pid.lower() + '.py')):
        m = importlib.import_module('props.' + pid.lower())
        checks.append({'property': pid, 'quick_cmd': 'python3-vt check.py %s' % pid,
                       'thorough_cmd': 'python3-vt check.py %s --thorough' % pid,
                       'technique': m.TECHNIQUE if hasattr(m, 'TECHNIQUE') else 'contract-based deductive verification of the real C functions (ccv VCs, z3/cvc5)',
                       'level': m.LEVEL, 'level_note': m.NOTE})
    else:
        na.append({'property': pid, 'reason': NA.get(pid, 'no check built yet')})
json.dump({'version': 1, 'setup_cmd': 'python3-vt check.py --selftest', 'checks': checks, 'not_applicable': na,
           'notes': 'see DESIGN.md; known findings and fixed defects in known-findings.txt'},
          open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
