#!/usr/bin/env python3
"""Writes CONTRACTS.md: the registered contracts and assumptions per property."""
import importlib
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/vcgen', V + '/contracts']
import api
out = ['# Contracts per property', '', 'Generated by tools/gen_contracts.py from contracts/*.py.  A name in a list of another property is shared with it.', '']
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
for p in props:
    i = p['id']
    if not os.path.exists('%s/contracts/%s.py' % (V, i.lower())):
        continue
    m = importlib.import_module(i.lower())
    out += ['## %s %s' % (i, p['title']), '']
    for c in api.REG[i]:
        doc = ' '.join((c.fn.__doc__ or '').split())
        own = '' if c.prop == i else ' [%s]' % c.prop
        files = ', '.join(sorted({os.path.basename(s[0]) for s in c.specs}))
        out.append('* **%s**%s (%s)%s' % (c.name, own, files, ' – ' + doc if doc else ''))
    out += ['', 'Assumptions:', ''] + ['* ' + a for a in m.ASSUMPTIONS] + ['']
open(V + '/CONTRACTS.md', 'w').write('\n'.join(out) + '\n')
