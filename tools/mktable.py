#!/usr/bin/env python3
"""Rewrite the table of planted bugs at the end of DESIGN.md.

usage: tools/mktable.py RESULTS   (lines "<id> <check> CAUGHT|MISSED")
"""
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for line in open(sys.argv[1]):
    p = line.split()
    if len(p) >= 3:
        res[p[0]] = '%s: %s' % (p[1], p[2].lower())
rows = []
for i in sorted(os.listdir(os.path.join(here, 'seeded'))):
    m = json.load(open(os.path.join(here, 'seeded', i, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (i, m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'),
                                      res.get(i, m['property'] + ': not run')))
p = os.path.join(here, 'DESIGN.md')
head = open(p).read().split('| bug |')[0]
open(p, 'w').write(head + '| bug | what it breaks | needs | quick check |\n|---|---|---|---|\n' +
                   '\n'.join(rows) + '\n')
