"""Prints the table of planted bugs for DESIGN.md from seeded/*/meta.json and seeded/results.txt."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for l in open(os.path.join(here, 'spec', 'seeded_results.txt')):
    if l.strip():
        k, _, v = l.strip().partition(' ')
        res[k] = v
rows = ['| bug | needs | caught by |', '|---|---|---|']
for b in sorted(os.listdir(os.path.join(here, 'seeded'))):
    p = os.path.join(here, 'seeded', b, 'meta.json')
    if os.path.exists(p):
        m = json.load(open(p))
        rows.append('| %s | %s | %s |' % (b, m['needs'], res.get(b, '?')))
p = os.path.join(here, 'DESIGN.md')
s = open(p).read()
i = s.index('## Planted bugs')
j = s.find('\nTABLE')
if j < 0:
    j = s.index('\n| bug', i)
open(p, 'w').write(s[:j] + '\n' + '\n'.join(rows) + '\n')
