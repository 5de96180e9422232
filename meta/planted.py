#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
os.chdir(os.path.dirname(os.path.abspath(__file__)) + '/..')
rows = []
for m in sorted(glob.glob('seeded/*/meta.json')):
    d = json.load(open(m))
    rows.append('| %s | %s (caught) | %s |' % (m.split('/')[1], d['property'], d['needs'].replace('\n', ' ').replace('|', '/')))
s = open('DESIGN.md').read()
head = '| planted | property | needs |\n|---|---|---|\n'
i = s.index(head) + len(head)
j = s.index('\n\n', i)
open('DESIGN.md', 'w').write(s[:i] + '\n'.join(rows) + s[j:])
