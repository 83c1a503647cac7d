#!/usr/bin/env python3
"""Prints the table of planted changes for DESIGN.md."""
import glob
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print('## Planted changes\n\nEach is caught by the check of its property.\n')
print('| seed | property | what it breaks | needs |\n|---|---|---|---|')
for f in sorted(glob.glob(os.path.join(V, 'seeded/*/meta.json'))):
    d = json.load(open(f))
    print('| %s | %s | %s | %s |' % (f.split('/')[-2], d['property'],
                                     d['what_it_breaks'], d['needs']))
