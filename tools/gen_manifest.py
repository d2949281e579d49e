#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import props
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    p = props.PROPS.get(i)
    if p:
        b = '; '.join(e['fn'] + ': ' + e['bounds'] for e in p['entries'])
        checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique='symbolic execution of LLVM IR of the current sources, Z3 decides every branch and assertion',
                           level=p.get('level', 'model_checking'),
                           level_note='bounded, exhaustive within the bounds: ' + b[:1500]))
    else:
        na.append(dict(property=i, reason=props.NOT_APPLICABLE.get(i, 'not built yet')))
m = dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
