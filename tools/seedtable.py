#!/usr/bin/env python3
# Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json.
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
also = {}
p = os.path.join(root, 'tools', 'seeds', 'also.json')
if os.path.exists(p):
    also = json.load(open(p))
rows = ['| planted bug | what it breaks | needs | caught by |', '|---|---|---|---|']
for m in sorted(glob.glob(os.path.join(root, 'seeded/*/meta.json'))):
    i = os.path.basename(os.path.dirname(m))
    d = json.load(open(m))
    rows.append('| %s | %s | %s | %s |' % (i, d['what_it_breaks'], d['needs'], also.get(i, d['property'])))
f = os.path.join(root, 'DESIGN.md')
s = open(f).read()
head = s[:s.index('## 4. Planted bugs')]
tail = '''## 4. Planted bugs

Each was written from a property and the code, confirmed to compile, pass all 2622 tests and fail its demonstration; the last
column names the check that reports it (run against a copy with the patch). `tools/seeds/batch*.py` hold their sources and
`tools/mkseed.py` regenerates the folders.

'''
open(f, 'w').write(head + tail + '\n'.join(rows) + '\n')
