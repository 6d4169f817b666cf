#!/usr/bin/env python3
"""Writes the fixed entries of known_findings.jsonl from the fix commits of /repo.

The property of each commit is in tools/fixes.txt (subject TAB property).  The known entries
(status "known") are kept as they are.
"""
import json
import pathlib
import subprocess

V = pathlib.Path(__file__).resolve().parent.parent
F = V / 'known_findings.jsonl'
old = [json.loads(l) for l in F.read_text().splitlines() if l.strip()] if F.exists() else []
prop = dict(l.split('\t')[::-1] for l in (V / 'tools/fixes.txt').read_text().splitlines() if l.strip())
out = []
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h%x09%s'], capture_output=True, text=True, check=True).stdout
missing = []
for l in log.splitlines():
    h, s = l.split('\t', 1)
    if not s.startswith('fix: '):
        continue
    s = s[5:]
    if s not in prop:
        missing.append(s)
        continue
    out.append({'status': 'fixed', 'property': prop[s], 'commit': h, 'what': s, 'line': f'fixed: property={prop[s]} {h} {s}'})
out += [e for e in old if e.get('status') == 'known']
F.write_text(''.join(json.dumps(e) + '\n' for e in out))
print(len(out), 'entries')
for s in missing:
    print('no property:', s)
