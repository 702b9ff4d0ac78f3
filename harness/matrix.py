#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md (section 5)."""
import json,os,collections
d=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','seeded')
by=collections.defaultdict(list)
for i in sorted(os.listdir(d)):
    m=json.load(open(os.path.join(d,i,'meta.json')))
    by[m['property']].append(i)
for p in sorted(by):
    print('- %s: %s' % (p, ', '.join(by[p])))
