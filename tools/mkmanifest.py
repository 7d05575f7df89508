#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/table.py"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(H, 'tools'))
from table import PROPS
with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        d = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(d) + '\n')
checks, na = [], []
for p in PROPS:
    if p.get('na'):
        na.append(dict(property=p['id'], reason=p['na']))
        continue
    checks.append(dict(property=p['id'], quick_cmd='python3-vt check.py %s quick' % p['id'],
                       thorough_cmd='python3-vt check.py %s thorough' % p['id'],
                       evidence_file='evidence/%s.json' % p['id'],
                       technique='contracts on the real functions, deductive verification of the extracted LLVM IR (own verifier, z3)',
                       level='proof', level_note=p['note']))
m = dict(version=1, setup_cmd='python3-vt check.py --selftest', checks=checks, not_applicable=na,
         notes='No hooks in /repo: contracts live in /verif and are checked against the code extracted from the working tree on every run.')
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
