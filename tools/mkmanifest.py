#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of plans."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'bin'))
sys.dont_write_bytecode = True
import plans

NOTE = ('Bounded: the specification is explored exhaustively within small scopes, the code is exercised on histories exported '
        'from that exploration and on seeded random histories, each validated step by step against the specification. '
        'Trusts TLC, the harness (virtual clock, lock-step threads, in-memory backends) and Django/PyPy as installed. ')
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if p in plans.PLANS:
        checks.append(dict(property=p, quick_cmd='bin/check %s quick' % p, thorough_cmd='bin/check %s thorough' % p,
                           technique=plans.TECH[p], level='model_checking', level_note=NOTE + plans.NOTES.get(p, '')))
    else:
        na.append(dict(property=p, reason='not built yet'))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
