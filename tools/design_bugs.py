#!/usr/bin/env python3
"""Fill in the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/caught.txt (lines `id run-or-text`)."""
import json, os, re, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = dict(l.strip().split(None, 1) for l in open(os.path.join(here, 'tools/caught.txt')) if l.strip())
rows = []
for d in sorted(glob.glob(os.path.join(here, 'seeded/*/'))):
    i = os.path.basename(d[:-1])
    m = json.load(open(os.path.join(d, 'meta.json')))
    rows.append('| %s (%s) | %s | %s |' % (i, m['property'], m['needs'], caught.get(i, '?')))
p = os.path.join(here, 'DESIGN.md')
s = open(p).read()
table = '\n'.join(rows)
head = '| id | what it needs | caught |\n|---|---|---|\n'
i = s.index(head) + len(head)
j = s.index('\n\n## 7', i)
s = s[:i] + table + s[j:]
open(p, 'w').write(s)
