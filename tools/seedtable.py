#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and
tools/results.json ({id: {check: exit code}})."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(here + '/tools/results.json'))
rows = ['| planted bug | what it breaks | caught by |', '|---|---|---|']
for i in sorted(os.listdir(here + '/seeded')):
    p = f'{here}/seeded/{i}/meta.json'
    if not os.path.exists(p):
        continue
    m = json.load(open(p))
    by = [c for c, rc in sorted(res.get(i, {}).items()) if rc == 1]
    rows.append(f"| {i} | {m['what_it_breaks']} | {', '.join(by) or '**none**'} |")
d = open(here + '/DESIGN.md').read()
d = re.sub(r'<!-- table -->.*?(?=\nMisses that led)', lambda _: '<!-- table -->\n' + '\n'.join(rows) + '\n', d, flags=re.S)
open(here + '/DESIGN.md', 'w').write(d)
