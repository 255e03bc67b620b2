#!/usr/bin/env python3
"""rewrites the table of planted bugs in DESIGN.md from a log of seedtest -c"""
import json
import os
import re
import sys

HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res, cur = {}, None
for x in open(sys.argv[1]):
    if not x.startswith(' '):
        cur = x.strip()
        res[cur] = []
    else:
        res[cur].append(x.strip())
out = ['<!-- table -->', '', '| Planted bug | Property | What it needs | Result |',
       '|---|---|---|---|']
for i in sorted(res):
    f = os.path.join(HOME, 'seeded', i, 'meta.json')
    if not os.path.exists(f):
        continue
    m = json.load(open(f))
    t = ' '.join(res[i])
    g = re.search(r'\[([A-Za-z]\w*)\]', t[t.find('CAUGHT'):])
    v = ('caught by `%s`' % (g.group(1) if g else '?')
         if 'CAUGHT' in t else 'missed')
    out.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'], v))
p = os.path.join(HOME, 'DESIGN.md')
s = open(p).read()
open(p, 'w').write(s[:s.index('<!-- table -->')] + '\n'.join(out) + '\n')
