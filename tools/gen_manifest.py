#!/usr/bin/env python3
"""Regenerates MANIFEST.json from tools/props.py (a property is claimed when its checker exists)."""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, H)
from tools.props import PROPS
checks, na = [], []
for i, s in sorted(PROPS.items()):
    if not os.path.exists('%s/mc/%s.cpp' % (H, i.lower())):
        na.append({'property': i, 'reason': s.get('na', 'the check for this property is not built yet')})
        continue
    checks.append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i,
                   'technique': s['technique'], 'level': s['level'], 'level_note': s['note']})
m = {'version': 1, 'setup_cmd': 'python3 -m py_compile check.py tools/props.py', 'checks': checks, 'not_applicable': na,
     'notes': 'Every check rebuilds /repo/src from the working tree in a scratch directory. No hooks in /repo.'}
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed,', len(na), 'not')
