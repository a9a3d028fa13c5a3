#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md."""
import glob, json, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
rows = []
for f in sorted(glob.glob(os.path.join(root, 'seeded/*/meta.json'))):
    m = json.load(open(f))
    n = os.path.basename(os.path.dirname(f))
    rows.append('| %s | %s | %s |' % (n, m['property'], m['needs'].replace('|', '/').replace('\n', ' ')))
p = os.path.join(root, 'DESIGN.md')
t = open(p).read()
t = re.sub(r'(\|-----\|-----------------------\|---------------\|\n)(\|.*\n)*', lambda m: m.group(1) + '\n'.join(rows) + '\n', t)
t = re.sub(r'`seeded/` holds \d+ changes', '`seeded/` holds %d changes' % len(rows), t)
open(p, 'w').write(t)
print(len(rows))
