#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from spec/props.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'spec'))
from props import PROPS
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        d = {k: p[k] for k in ('id', 'title', 'statement', 'why_tests_cant')}
        assert len(p['title']) <= 80, p['id']
        d['quantifier'] = {'over': p['over'], 'text': p['qtext']}
        d['anchors'] = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
        f.write(json.dumps(d) + '\n')
checks, na = [], []
for p in PROPS:
    if p.get('na'):
        na.append({'property': p['id'], 'reason': p['na']})
    else:
        checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s quick' % p['id'],
                       'thorough_cmd': 'python3 check.py %s thorough' % p['id'],
                       'technique': p['technique'], 'level': p.get('level', 'other'), 'level_note': p['note']})
m = {'version': 1, 'setup_cmd': 'bash bin/extract.sh "$PWD/.cache/facts" >/dev/null 2>&1 || true', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
import jsonschema
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open(os.path.join(V, 'properties.jsonl')):
    jsonschema.validate(json.loads(l), s)
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
