#!/usr/bin/env python3
"""write properties.jsonl and MANIFEST.json from tools/props.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import props
allp = sorted(props.P + props.NA, key=lambda p: p['id'])
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in allp:
        assert len(p['title']) <= 80, p['title']
        assert p['statement'].count('. ') <= 2, (p['id'], p['statement'])
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                                anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))) + '\n')
m = dict(version=1, setup_cmd='./run.py --selftest',
         checks=[dict(property=p['id'], quick_cmd='./run.py %s' % p['id'], thorough_cmd='./run.py %s --thorough' % p['id'],
                      technique='bounded symbolic execution of the real Python code with z3, counterexamples replayed on it',
                      level='other', level_note=p['note'] + ' Floats are exact reals with stated tolerances; bounds in the evidence file.')
                 for p in sorted(props.P, key=lambda p: p['id'])],
         not_applicable=[dict(property=p['id'], reason=p['reason']) for p in props.NA],
         notes='Evidence level "other": solver verdict over all values within stated bounds (see coverage.explanation).')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
