"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': [], 'not_applicable': [],
     'notes': 'No hooks: the contracts are attached to text extracted from /repo/src on every run, and the harness uses public items only.'}
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        m['checks'].append({'property': i, 'quick_cmd': 'python3 tools/check.py %s quick' % i, 'thorough_cmd': 'python3 tools/check.py %s thorough' % i,
                            'technique': p.get('technique', 'deductive verification: Verus contracts on the functions extracted from /repo/src on every run'),
                            'level': p['level'], 'level_note': p['note']})
    else:
        m['not_applicable'].append({'property': i, 'reason': NOT_APPLICABLE[i]})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
