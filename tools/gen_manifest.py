#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed properties."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'contract-based deductive verification of the real code: verification conditions generated from the clang AST of ' \
       '/repo on every run (own generator, z3 and normal forms), violations replayed on the compiled code'
NA = {
    'C16': 'A statement about the limit of a floating-point iteration (convergence of an interior-point method to a tolerance): '
           'no function contract within reach implies it; the per-iteration facts it rests on are C05, C06, C07, C03 and C15.',
    'C17': 'A relational (two-run) property over the whole program state, heap and floating-point history of Solve; a per-function '
           'contract cannot state it without a full model of every container in the program object.',
}
NOTE = {}
exec(open(os.path.join(HERE, 'tools', 'claims.py')).read())
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
m = {'version': 1,
     'setup_cmd': 'python3-vt tools/setup.py',
     'checks': [{'property': p, 'quick_cmd': 'python3-vt vcgen/run.py %s' % p,
                 'thorough_cmd': 'python3-vt vcgen/run.py %s --thorough' % p,
                 'technique': TECH, 'level': 'proof', 'level_note': NOTE[p]} for p in props if p in NOTE],
     'not_applicable': [{'property': p, 'reason': NA.get(p, 'check under construction')} for p in props if p not in NOTE]}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
