#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import props, checks
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in props.PROPS:
        q = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(q, ensure_ascii=False) + '\n')
m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': [], 'not_applicable': props.NOT_APPLICABLE,
     'notes': 'Every check is one Go test binary built (with the race detector) from /repo by run.py; see DESIGN.md.'}
for p in props.PROPS:
    if p['id'] in checks.CHECKS:
        m['checks'].append({
            'property': p['id'],
            'quick_cmd': 'python3 run.py ' + p['id'],
            'thorough_cmd': 'VERIF_TIER=thorough python3 run.py ' + p['id'],
            'technique': p['technique'], 'level': 'exploration', 'level_note': p['level_note']})
na = {n['property'] for n in props.NOT_APPLICABLE}
for p in props.PROPS:
    assert (p['id'] in checks.CHECKS) != (p['id'] in na), p['id']
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write('\n')
print(len(props.PROPS), 'properties,', len(m['checks']), 'checks')
