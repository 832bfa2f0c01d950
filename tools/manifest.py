#!/usr/bin/env python3
"""Generates MANIFEST.json from properties.jsonl and registry.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from registry import PROPS, NOT_APPLICABLE
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 -m py_compile check.py registry.py && g++-9 --version > /dev/null',
     'checks': [], 'not_applicable': []}
for p in props:
    if p in PROPS:
        c = PROPS[p]
        m['checks'].append(dict(property=p, quick_cmd=f'./check.py {p} --tier quick', thorough_cmd=f'./check.py {p} --tier thorough',
            technique=c['technique'], level='exploration',
            level_note=c.get('note', 'Generated-input search against an explicit oracle; held on every case explored, no claim beyond them. '
                             'Trusts the reference model in harness/' + c['harness'] + ', the compilers and sanitizers.')))
    else:
        m['not_applicable'].append(dict(property=p, reason=NOT_APPLICABLE.get(p, 'no check built yet')))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
