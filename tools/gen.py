"""writes properties.jsonl and MANIFEST.json"""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools.texts import PROPS as TEXTS, NA
from sa.rules import PROPS

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for t in TEXTS:
        assert len(t['title']) <= 80, t['id']
        f.write(json.dumps(t) + '\n')
checks, na = [], []
for t in TEXTS:
    i = t['id']
    if i in PROPS:
        r = PROPS[i]
        checks.append({'property': i, 'quick_cmd': f'./check {i}', 'thorough_cmd': f'VERIF_TIER=thorough ./check {i}',
                       'evidence_file': f'evidence/{i}.json', 'technique': r.technique, 'level': r.level,
                       'level_note': r.note})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check has been built for it yet')})
m = {'version': 1, 'setup_cmd': './setup', 'checks': checks, 'not_applicable': na,
     'notes': 'Static analysis of the typed MIR of the working tree. DESIGN.md describes the method, known-findings.txt the defects found.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable:', [x['property'] for x in na if x['property'] not in NA])
