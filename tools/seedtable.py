#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/ (and, when given, the output of tools/trial.py)."""
import sys, os, json, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r'(\S+)\s+(C\d+) (caught|missed|NO ANSWER)\S* \S+ ?(.*)', l)
        if m: res[m.group(1)] = (m.group(2), m.group(3), m.group(4).strip())
p = os.path.join(V, 'DESIGN.md')
t = open(p).read()
rows = ['| bug (its check is the one it is named after) | needs | reported as |', '|---|---|---|']
old = dict(re.findall(r'^\| (C\d\d-\S+) \| .* \| (.*) \|$', t, re.M))
for i in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', i, 'meta.json')))
    r = res.get(i)
    said = old.get(i, '') if r is None else ('' if r[1] == 'caught' else r[1].upper() + ' ') + (r[2] or 'crash')
    rows.append('| %s | %s | %s |' % (i, m['needs'].replace('|', '/').replace('\n', ' '), said.replace('|', '/')[:100]))
new = '<!-- table -->\n' + '\n'.join(rows) + '\n<!-- end -->'
if 'SEEDTABLE' in t: t = t.replace('SEEDTABLE', new)
else: t = re.sub(r'<!-- table -->.*<!-- end -->', lambda _: new, t, flags=re.S)
open(p, 'w').write(t)
