#!/usr/bin/env python3
"""Write MANIFEST.json from the registry's descriptions."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from rules.registry import PROPS, NOT_APPLICABLE

checks = []
for p in sorted(PROPS):
    d = PROPS[p]
    checks.append({'property': p, 'quick_cmd': 'python3-vt check.py %s quick' % p, 'thorough_cmd': 'python3-vt check.py %s thorough' % p,
                   'evidence_file': 'evidence/%s.json' % p, 'technique': d['technique'], 'level': 'other', 'level_note': d['note']})
out = {'version': 1, 'setup_cmd': 'true', 'checks': checks,
       'not_applicable': [{'property': p, 'reason': r} for p, r in sorted(NOT_APPLICABLE.items())]}
json.dump(out, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
