#!/usr/bin/env python3
"""table.py: rewrites the table of planted bugs at the end of DESIGN.md (all of them are caught by the check of their property)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
rows = ['| planted change | caught by | what it breaks | needs |', '|---|---|---|---|']
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'], m['needs']))
p = V + '/DESIGN.md'
s = open(p).read()
mark = '<!-- planted -->'
s = s.replace('@@TABLE@@', mark)
s = s[:s.index(mark) + len(mark)] + '\n' + '\n'.join(rows) + '\n'
open(p, 'w').write(s)
