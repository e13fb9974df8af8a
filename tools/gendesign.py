#!/usr/bin/env python3
"""writes the per-property part of DESIGN.md (between the markers) from props.py and the checks"""
import ast, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'tools'))
import props
import json
out = []
for pid in sorted(props.P):
    p = props.P[pid]
    f = os.path.join(H, 'checks', pid.lower() + '.py')
    if pid in props.NA or not os.path.exists(f):
        out.append(f'### {pid} {p["title"]}\nNot applicable: {dict(props.NA).get(pid, "")}\n')
        continue
    d = {n.targets[0].id: ast.literal_eval(n.value) for n in ast.parse(open(f).read()).body
         if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('EXPLANATION', 'OUTSIDE')}
    where = '; '.join(f'{a} ({os.path.basename(b)})' for a, b in p['mech'])
    fixed = [x.split(' ', 2)[2] for x in json.load(open(os.path.join(H, 'known_findings.json')))['fixed'] if f'property={pid} ' in x]
    out.append(f'### {pid} {p["title"]}\n- Statement: {p["statement"]}\n- Code: {where}\n- Decided by: {d["EXPLANATION"]}\n- Range: {p["text"] or p["over"]}\n'
               f'- Outside: {d["OUTSIDE"]}\n- Beyond tests: {p["why"]}\n' + (f'- Defect(s) found and repaired: {"; ".join(fixed)}\n' if fixed else ''))
s = open(os.path.join(H, 'DESIGN.md')).read()
a, b = '<!-- properties -->\n', '<!-- end properties -->\n'
i, j = s.index(a) + len(a), s.index(b)
open(os.path.join(H, 'DESIGN.md'), 'w').write(s[:i] + '\n'.join(out) + '\n' + s[j:])
rows = ['| id | property | file | what breaks | needs | caught |', '|---|---|---|---|---|---|']
caught = json.load(open(os.path.join(H, 'tools', 'caught.json'))) if os.path.exists(os.path.join(H, 'tools', 'caught.json')) else {}
for d in sorted(os.listdir(os.path.join(H, 'seeded'))):
    m = json.load(open(os.path.join(H, 'seeded', d, 'meta.json')))
    f = ', '.join(l[6:].strip() for l in open(os.path.join(H, 'seeded', d, 'patch.diff')) if l.startswith('+++'))
    rows.append(f'| {d} | {m["property"]} | {f.replace("src/", "")} | {m["what_it_breaks"]} | {m["needs"]} | {caught.get(d, "not run")} |')
s = open(os.path.join(H, 'DESIGN.md')).read()
a, b = '<!-- seeds -->\n', '<!-- end seeds -->\n'
i, j = s.index(a) + len(a), s.index(b)
open(os.path.join(H, 'DESIGN.md'), 'w').write(s[:i] + '\n'.join(rows) + '\n' + s[j:])
