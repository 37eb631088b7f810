#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
head = s[:s.index('| planted bug |')] if '| planted bug |' in s else s[:s.index('SEEDTABLE')]
rows = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
for m in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    d = json.load(open(m))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), d['property'], d['needs'].replace('|', '/'), d.get('caught', d['property'] + ' quick')))
tail = s[s.index('\n\n', s.index('| planted bug |')):] if '| planted bug |' in s and '\n\n' in s[s.index('| planted bug |'):] else ''
open(p, 'w').write(head + '\n'.join(rows) + (tail or '\n'))
