#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claimed properties (wvc/claims.py)."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from wvc.claims import CLAIMS, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl'))]
na = dict(NOT_APPLICABLE)
checks = []
for i in ids:
    if i in CLAIMS:
        checks.append({'property': i, 'quick_cmd': 'python3 run.py %s --tier quick' % i, 'thorough_cmd': 'python3 run.py %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': 'contract-based deductive verification (VC generation from the LLVM IR of /repo, SMT)',
                       'level': 'proof', 'level_note': CLAIMS[i]})
    else:
        na.setdefault(i, 'not claimed yet: the contracts of the functions it depends on are not finished')
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks,
     'not_applicable': [{'property': i, 'reason': na[i]} for i in ids if i not in CLAIMS],
     'notes': 'No hooks in /repo: the verifier reads the code as it is. See DESIGN.md.'}
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(m['not_applicable']), 'not claimed')
