#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a check for each property whose checks/cNN.py exists."""
import json
import pathlib
import re

V = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (V / 'properties.jsonl').read_text().splitlines()]
checks, na = [], []
for p in props:
    name = p['id'].lower()
    f = V / 'checks' / f'{name}.py'
    if not f.exists():
        na.append({'property': p['id'], 'reason': NA.get(p['id'], 'not built yet') if 'NA' in globals() else 'not built yet'})
        continue
    src = f.read_text()
    tech = re.search(r"^TECHNIQUE = \(?(.*?)\)?$", src, re.M)
    ns = {}
    for key in ('TECHNIQUE', 'NOTE', 'LEVEL'):
        m = re.search(rf'^{key} = (\((?:.|\n)*?^\)|.*$)', src, re.M)
        ns[key] = eval(m.group(1)) if m else None
    checks.append({
        'property': p['id'],
        'quick_cmd': f'bin/check {name} quick',
        'thorough_cmd': f'bin/check {name} thorough',
        'technique': ns['TECHNIQUE'],
        'level': ns['LEVEL'] or 'model_checking',
        'level_note': ns['NOTE'],
    })
    assert ns['TECHNIQUE'] and ns['NOTE'], name
m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python -m mc.build plain mc', 'checks': checks}
if na:
    m['not_applicable'] = na
m['notes'] = ('No hook in /repo: the checks build the extension from the working tree in a scratch directory and load the Python '
              'sources of the working tree.')
(V / 'MANIFEST.json').write_text(json.dumps(m, indent=1) + '\n')
print(len(checks), 'checks,', len(na), 'not claimed')
