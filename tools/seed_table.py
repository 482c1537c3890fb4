#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (between its two marker lines) from seeded/*/meta.json."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| seed | caught by | needs |', '|---|---|---|']
for p in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(p))
    rows.append(f"| {os.path.basename(os.path.dirname(p))} | {m['property']} | {m['needs'].replace('|', '/')} |")
d = root + '/DESIGN.md'
s = open(d).read()
a, rest = s.split('<!-- seeds -->\n')[0], s.split('<!-- /seeds -->')[1]
open(d, 'w').write(a + '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->' + rest)
