#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED_FIRST = set(open(os.path.join(here, 'tools', 'missed_first.txt')).read().split())
mark = '<!-- seeded table -->\n'
path = os.path.join(here, 'DESIGN.md')
text = open(path).read().split(mark)[0]
rows = ['| planted bug | needs | |', '|---|---|---|']
for d in sorted(glob.glob(os.path.join(here, 'seeded', '*', 'meta.json'))):
    m = json.load(open(d))
    n = os.path.basename(os.path.dirname(d))
    rows.append(f"| {n} | {m['needs']} | {'check strengthened' if n in MISSED_FIRST else ''} |")
open(path, 'w').write(text + mark + '\n'.join(rows) + '\n')
