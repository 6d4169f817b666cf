#!/usr/bin/env python3
"""Writes DESIGN.md from tools/DESIGN.tpl.md, tools/design/*.md, the checks, the findings and the planted bugs."""
import json
import pathlib
import re

V = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (V / 'properties.jsonl').read_text().splitlines()]
out = ['## The properties and how they are decided\n']
for p in props:
    c = p['id'].lower()
    out.append(f"### {p['id']} {p['title']}\n")
    f = V / 'checks' / f'{c}.py'
    d = V / 'tools/design' / f'{c}.md'
    if d.exists():
        out.append(d.read_text().strip() + '\n')
    if f.exists():
        src = f.read_text()
        for key, title in (('TECHNIQUE', 'Deciding method'), ('BOUNDS', 'Bounds'), ('NOTE', 'Oracle and assumptions')):
            m = re.search(rf'^{key} = (\((?:.|\n)*?^\)|.*$)', src, re.M)
            if m:
                out.append(f'* **{title}**: {eval(m.group(1))}')
        out.append(f"* **Beyond the tests**: {p['why_tests_cant']}\n")
    elif not d.exists():
        out.append('Not built yet.\n')
E = [json.loads(l) for l in (V / 'known_findings.jsonl').read_text().splitlines() if l.strip()]
fixed = ''.join(f"* {e['property']} `{e['commit']}` {e['what']}\n" for e in sorted(E, key=lambda e: e['property']) if e['status'] == 'fixed')
known = ''.join(f"* {e['property']} ({e['scenario']} | {e['key']}): {e['what']}\n" for e in E if e['status'] == 'known') or 'None.\n'
seeded = '| bug | property | breaks | caught by |\n|---|---|---|---|\n'
c = V / 'tools/caught.json'
caught = json.loads(c.read_text()) if c.exists() else {}
for d in sorted((V / 'seeded').iterdir()):
    m = json.loads((d / 'meta.json').read_text())
    seeded += f"| {d.name} | {m['property']} | {m['what_it_breaks']} | {caught.get(d.name, '?')} |\n"
t = (V / 'tools/DESIGN.tpl.md').read_text()
for k, v in (('PROPS', '\n'.join(out) + '\n'), ('FIXED', fixed), ('KNOWN', known), ('SEEDED', seeded)):
    t = t.replace(f'@@{k}@@', v)
(V / 'DESIGN.md').write_text(t)
