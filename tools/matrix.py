#!/usr/bin/env python3
"""Refreshes the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/matrix.txt
(lines: SEED CHECK[,CHECK...] as seen when the seed was last run; see try_all.sh)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
p = V + '/tools/matrix.txt'
if os.path.exists(p):
    for l in open(p):
        if l.strip():
            a = l.split(None, 1)
            caught[a[0]] = a[1].strip() if len(a) > 1 else '-'
out = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(m)); i = m.split('/')[-2]
    out.append(f"| {i} | {d['property']} | {d['needs']} | {caught.get(i, d['property'])} |")
s = open(V + '/DESIGN.md').read()
a = s.index('<!-- matrix -->')
open(V + '/DESIGN.md', 'w').write(s[:a] + '<!-- matrix -->\n' + '\n'.join(out) + '\n')
