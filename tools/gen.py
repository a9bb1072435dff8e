#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from props import PROPS, NA   # noqa: E402

TECH = ('bounded symbolic execution of the sporco Python source (operator '
        'overloading, path forking), goals decided by z3 over real/complex arithmetic')
NOTE = ('For all values of the symbolic inputs at the sizes, options and path '
        'bounds listed in the case grid, the goals hold in exact arithmetic. '
        'Trusted: exact models of numpy/scipy/FFT primitives (cross-checked '
        'against real runs), z3, and the specifications in the harness. Rounding, '
        'overflow and larger sizes are outside the claim.')
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in PROPS + NA:
        d = {k: p[k] for k in ('id', 'title', 'statement')}
        assert len(d['title']) <= 80, d
        d['quantifier'] = {'over': p['over'], 'text': p['q']}
        d['why_tests_cant'] = p['why']
        d['anchors'] = {'files': p['files'],
                        'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                        'hook_needed': None}
        if p.get('observe'):
            d['anchors']['observe_at'] = p['observe']
        f.write(json.dumps(d) + '\n')
man = {'version': 1,
       'setup_cmd': '/opt/venv/bin/python check.py --selftest',
       'checks': [], 'not_applicable': []}
for p in PROPS:
    man['checks'].append({
        'property': p['id'],
        'quick_cmd': '/opt/venv/bin/python check.py %s --tier quick' % p['id'],
        'thorough_cmd': '/opt/venv/bin/python check.py %s --tier thorough' % p['id'],
        'technique': TECH, 'level': 'other',
        'level_note': NOTE + (' ' + p['note'] if p.get('note') else '')})
for p in NA:
    man['not_applicable'].append({'property': p['id'], 'reason': p['reason']})
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(PROPS), 'claimed', len(NA), 'not applicable')
