#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks present in sa/checks and the not-applicable table below."""
import ast, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
NA = {
 'C28': 'quantifies over rounding errors of FFTs in library code; no sound static bound is in reach for this code base',
}
PENDING = 'check not built yet'
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    p = os.path.join(HERE, 'sa', 'checks', i.lower() + '.py')
    if i in NA or not os.path.exists(p):
        na.append(dict(property=i, reason=NA.get(i, PENDING)))
        continue
    env = {}
    for n in ast.parse(open(p).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', None) in ('TECHNIQUE', 'NOTE'):
            env[n.targets[0].id] = ast.literal_eval(n.value)
    checks.append(dict(property=i, quick_cmd='python3-vt check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3-vt check.py ' + i,
                       technique=env['TECHNIQUE'], level='other', level_note=env['NOTE']))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
