"""fills the generated sections of DESIGN.md: findings (known_findings.json) and planted bugs (seeded/*/meta.json, catches.json)"""
import glob
import json
import os
import re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(HERE, 'DESIGN.md')
s = open(p).read()
known = json.load(open(os.path.join(HERE, 'known_findings.json')))
rows = ['- ' + k['what'] for k in known]
s = re.sub(r'(one-line description of each\.\n\n).*?(?=\n## 4)', lambda m: m.group(1) + '\n'.join(rows) + '\n', s, flags=re.S)
c = {}
f = os.path.join(HERE, 'catches.json')
if os.path.exists(f):
    c = json.load(open(f))
rows = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    n = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    rows.append(f"| {n} | {m['property']} | {m['needs']} | {c.get(n, 'not run')} |")
s = re.sub(r'(## 4\. Planted bugs and what catches them\n\n).*?(?=\n## 5)', lambda m: m.group(1) + '\n'.join(rows) + '\n', s, flags=re.S)
open(p, 'w').write(s)
