#!/usr/bin/env python3
"""properties.jsonl and MANIFEST.json from one table.  A property is claimed when contracts/<id>.py exists."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from props import PROPS, NA
T = 'contract-based deductive verification of the C source (weakest preconditions over clang\'s AST, Houdini-checked loop invariants, z3/cvc5); contracts also executed on the compiled code'
seen = set()
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert p['id'] not in seen and len(p['title']) <= 80, p['id']
        seen.add(p['id'])
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['quant']),
                                why_tests_cant=p['why'], anchors=p['anchors'])) + '\n')
checks, na = [], []
for p in PROPS:
    if p['id'] in NA or not os.path.exists(os.path.join(V, 'contracts', p['id'] + '.py')):
        na.append(dict(property=p['id'], reason=NA.get(p['id'], 'no contract built yet')))
        continue
    checks.append(dict(property=p['id'], quick_cmd='./check %s' % p['id'], thorough_cmd='./check %s --tier thorough' % p['id'],
                       technique=p.get('technique', T), level='proof', level_note=p['note']))
man = dict(version=1, setup_cmd='sh setup.sh', hooks=dict(guard='none', enable='no hooks are needed: the checks read and compile /repo as it is', source_commits=[]),
           checks=checks, not_applicable=na, notes='see DESIGN.md; known findings and repairs: KNOWN_FINDINGS.txt')
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(PROPS), 'properties', len(checks), 'claimed')
