#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json
import os
import sys
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.join(ROOT, 'tools'))
import props                      # noqa
from checks import registry       # noqa

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as fh:
    for p in props.PROPS:
        assert len(p['title']) <= 80, p['id']
        d = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        fh.write(json.dumps(d) + '\n')

checks, na = [], []
for p in props.PROPS:
    if p.get('not_applicable'):
        na.append(dict(property=p['id'], reason=p['not_applicable']))
        continue
    assert p['id'] in registry.CHECKS, p['id']
    c = dict(property=p['id'], quick_cmd='python3 run.py check %s --tier quick' % p['id'],
             thorough_cmd='python3 run.py check %s --tier thorough' % p['id'],
             technique=p['technique'], level='other', level_note=p['note'])
    checks.append(c)
m = dict(version=1, setup_cmd='python3 -c "import ast"', checks=checks, not_applicable=na, notes=props.NOTES)
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as fh:
    json.dump(m, fh, indent=1)
    fh.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
