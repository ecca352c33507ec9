#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (a property is claimed when a spec module defines it)."""
import json
import os
import re
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from props import PROPS, NA, NOTES     # noqa: E402

claimed = set()
for f in os.listdir(os.path.join(HERE, 'specs')):
    if f.endswith('.py'):
        claimed |= set(re.findall(r"Prop\('(C\d+)'", open(os.path.join(HERE, 'specs', f)).read()))
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as out:
    for p in PROPS:
        d = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        assert len(d['title']) <= 80, d['title']
        out.write(json.dumps(d) + '\n')
checks, na = [], []
for p in PROPS:
    i = p['id']
    if i in claimed and i not in NA:
        checks.append(dict(property=i, quick_cmd=f'/opt/venv/bin/python /verif/check.py {i}',
                           thorough_cmd=f'/opt/venv/bin/python /verif/check.py {i} --tier thorough',
                           technique=p.get('technique') or 'contracts on the real Python functions; verification '
                           'conditions generated from /repo source each run and discharged by z3; failed obligations replayed',
                           level=p.get('level', 'proof'), level_note=p['note']))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'specification not built yet')))
m = dict(version=1, setup_cmd='/opt/venv/bin/python /verif/check.py --list', checks=checks, not_applicable=na,
         notes=NOTES)
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as out:
    json.dump(m, out, indent=1)
    out.write('\n')
print(len(PROPS), 'properties', len(checks), 'claimed')
