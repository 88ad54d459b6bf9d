#!/usr/bin/env python3
"""Write the table of planted bugs (seeded/*/meta.json and tools/caught.txt) at the end of DESIGN.md."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = dict(l.split(None, 1) for l in open(here + '/tools/caught.txt') if l.strip())
t = ['## Planted bugs', '',
     'Each was tried with the check of its property, quick tier, seed 1. "later" = missed at first, the check was strengthened.', '',
     '| bug | property | caught by | needs |', '|---|---|---|---|']
for i in sorted(os.listdir(here + '/seeded')):
    m = json.load(open(here + '/seeded/%s/meta.json' % i))
    t.append('| %s | %s | %s | %s |' % (i, m['property'], caught.get(i, '?').strip(), m['needs'].replace('|', '/').replace('\n', ' ')))
s = open(here + '/DESIGN.md').read().split('## Planted bugs')[0].rstrip() + '\n\n'
open(here + '/DESIGN.md', 'w').write(s + '\n'.join(t) + '\n')
