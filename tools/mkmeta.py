#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and tools/claims.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
root = os.path.dirname(here)
from props import P
from claims import CLAIMS, NOT_APPLICABLE, NOTES
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
ids = [p['id'] for p in P]
checks = []
na = [dict(property=i, reason=r) for i, r in NOT_APPLICABLE.items()]
for i in ids:
    if i in CLAIMS:
        technique, level, note = CLAIMS[i]
        checks.append(dict(property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i,
                           technique=technique, level=level, level_note=note))
    elif i not in NOT_APPLICABLE:
        na.append(dict(property=i, reason='check not built yet'))
m = dict(version=1, setup_cmd='./setup', checks=checks, not_applicable=na, notes=NOTES)
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write('\n')
