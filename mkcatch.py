#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and
the given logs of matrix runs (lines "<id> <property> rc N ... CAUGHT|MISSED").
Not used by any check."""
import json, os, re, sys
here = os.path.dirname(os.path.abspath(__file__))
got = {}
old = open(os.path.join(here, 'DESIGN.md')).read()
m = re.search(r'<!-- bugs -->\n(.*?)<!-- end of bugs -->', old, re.S)
if m:
    for l in m.group(1).splitlines():
        c = [x.strip() for x in l.split('|')]
        if len(c) > 4 and c[1] not in ('bug', '---'):
            got[c[1]] = c[4]
for f in sys.argv[1:]:
    for l in open(f):
        w = l.split()
        if 'CAUGHT' in w: got[w[0]] = w[1]
        elif 'MISSED' in w: got[w[0]] = 'missed'
rows = []
for i in os.listdir(os.path.join(here, 'seeded')):
    j = json.load(open(os.path.join(here, 'seeded', i, 'meta.json')))
    rows.append((j['property'], i, j['needs'], got.get(i, 'not run')))
rows.sort()
t = '| bug | property | needs | caught by |\n|---|---|---|---|\n' + ''.join('| %s | %s | %s | %s |\n' % (i, p, n.replace('|', '/'), g) for p, i, n, g in rows)
t = '<!-- bugs -->\n' + t + '<!-- end of bugs -->'
if m:
    new = old[:m.start()] + t + old[m.end():]
else:
    new = old.rstrip() + '\n\n## Planted bugs\n\nEach lies in `seeded/<bug>/`; "caught by" names the property whose quick check\nreports it, as last run.\n\n' + t + '\n'
open(os.path.join(here, 'DESIGN.md'), 'w').write(new)
from collections import Counter
print(Counter('missed' if r[3] in ('missed','not run') else 'caught' for r in rows), [r[1] for r in rows if r[3] in ('missed','not run')])
