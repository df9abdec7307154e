#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from /verif/seeded/*/meta.json (documentation only)."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | caught by | needs |', '|----|----|----|']
for d in sorted(os.listdir(os.path.join(root, 'seeded'))):
    m = json.load(open(os.path.join(root, 'seeded', d, 'meta.json')))
    rows.append('| %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/').replace('\n', ' ')))
p = os.path.join(root, 'DESIGN.md')
t = open(p).read()
t = re.sub(r'(<!-- seeds -->\n).*?(<!-- /seeds -->)', lambda k: k.group(1) + '\n'.join(rows) + '\n' + k.group(2), t, flags=re.S)
open(p, 'w').write(t)
