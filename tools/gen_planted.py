#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json and seeded/caught.txt (id: result)."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = dict(l.strip().split(': ', 1) for l in open(here + '/seeded/caught.txt') if ': ' in l)
rows = ['| change | property | needs | caught by |', '|---|---|---|---|']
for f in sorted(glob.glob(here + '/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(f)); m = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'], caught.get(i, '?')))
t = open(here + '/DESIGN.md').read()
t = re.sub(r'(<!-- planted -->\n).*?(<!-- end -->)', lambda m: m.group(1) + '\n'.join(rows) + '\n' + m.group(2), t, flags=re.S)
open(here + '/DESIGN.md', 'w').write(t)
