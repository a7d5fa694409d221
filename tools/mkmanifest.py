#!/usr/bin/env python3
"""Regenerates MANIFEST.json from irv/registry.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from irv import registry as R
TECH = 'contract-based deductive verification: C++ contracts (assume/assert, ghost state, inferred + supplied loop invariants) on the real functions, compiled to LLVM IR from /repo on every run, every obligation discharged by z3 (thorough: re-discharged by cvc5)'
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='true', checks=[], not_applicable=[])
for i in ids:
    if i in R.PROPS:
        p = R.PROPS[i]
        m['checks'].append(dict(property=i, quick_cmd='python3-vt /verif/irv/main.py %s --tier quick' % i, thorough_cmd='python3-vt /verif/irv/main.py %s --tier thorough' % i,
            technique=TECH, level=p.get('level', 'proof'), level_note=p.get('note', 'all inputs, no bound; every obligation discharged')))
    else: m['not_applicable'].append(dict(property=i, reason=R.NA.get(i, 'check not built yet')))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
