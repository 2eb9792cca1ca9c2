#!/usr/bin/env python3
"""Writes MANIFEST.json from props.PROPS and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl')) if l.strip()]
checks, na = [], []
for i in ids:
    if i in PROPS:
        P = PROPS[i]
        checks.append(dict(property=i, quick_cmd=f'python3 vp/check.py {i}', thorough_cmd=f'python3 vp/check.py {i} --thorough', technique='contract-based deductive verification of the extracted real code (Verus/Z3)' + ('' if not P.get('harness') else '; bounded replay of the same contracts on the compiled code for failing inputs'),
            level=P.get('level', 'proof'), level_note=P.get('note', 'Verus discharges every obligation of the contracted functions, cut from /repo on every run, for all inputs; std and dependency contracts are assumed (listed in the evidence).') + (' Not under contract: ' + '; '.join(P['uncovered']) if P.get('uncovered') else '')))
    else: na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'no check built yet')))
m = dict(version=1, setup_cmd='python3 vp/setup.py', checks=checks, not_applicable=na, notes='No hooks are needed in /repo: the functions are extracted mechanically from the working tree on every run.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed,', len(na), 'not applicable')
