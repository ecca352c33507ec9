#!/opt/venv/bin/python
"""Dev tool: make or re-validate planted bugs.  mkseed.py make DEF.py   |  mkseed.py check [ids] (runs the property's check too)

DEF.py defines SEEDS = [dict(id=, property=, edits=[(file, old, new)], needs=, breaks=, demo=python source)].
Everything happens by applying the patch to /repo and undoing it straight afterwards."""
import importlib.util
import json
import os
import subprocess
import sys

V = '/verif/seeded'


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def undo():
    sh('git -C /repo checkout -- .')


def tests_ok():
    sh('bash /opt/vp/test.sh /tmp/mkseed.json')
    o = json.load(open('/tmp/mkseed.json'))
    b = json.load(open('/opt/vp/BASELINE.json'))
    names = b if isinstance(b, list) else b.get('passed') or b.get('stable') or list(b.values())[0]
    return not [n for n in names if n not in o['passed']]


def demo(i):
    return sh(f'cd /repo && bash {V}/{i}/demo.sh')


def validate(i):
    assert not sh('git -C /repo status --porcelain').stdout.strip()
    d0 = demo(i)
    r = sh(f'git -C /repo apply {V}/{i}/patch.diff')
    try:
        if r.returncode:
            return 'patch does not apply ' + r.stderr[:200]
        b = sh('bash /opt/vp/build.sh')
        if b.returncode:
            return 'build fails ' + b.stderr[-300:]
        d1 = demo(i)
        t = tests_ok()
    finally:
        undo()
    if d0.returncode:
        return 'demo fails on clean tree: ' + (d0.stdout + d0.stderr)[-500:]
    if not d1.returncode:
        return 'demo passes with bug'
    if not t:
        return 'tests fail with bug'
    return 'ok'


def check(i):
    p = json.load(open(f'{V}/{i}/meta.json'))['property']
    sh(f'git -C /repo apply {V}/{i}/patch.diff')
    try:
        r = sh(f'/opt/venv/bin/python /verif/check.py {p}')
    finally:
        undo()
    v = [x for x in r.stdout.splitlines() if x.startswith(('VIOLATION', '  failed'))]
    return f'{p} exit {r.returncode} ' + ' | '.join(x[:150] for x in v[-2:])


def main():
    if sys.argv[1] == 'make':
        s = importlib.util.spec_from_file_location('seeddef', sys.argv[2])
        m = importlib.util.module_from_spec(s)
        s.loader.exec_module(m)
        only = sys.argv[3:]
        for d in m.SEEDS:
            if only and d['id'] not in only:
                continue
            os.makedirs(f'{V}/{d["id"]}', exist_ok=True)
            ok = True
            for f, old, new in d['edits']:
                t = open('/repo/' + f).read()
                if t.count(old) != 1:
                    print(d['id'], 'edit text found', t.count(old), 'times')
                    ok = False
                    break
                open('/repo/' + f, 'w').write(t.replace(old, new))
            if ok:
                open(f'{V}/{d["id"]}/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
            undo()
            if not ok:
                continue
            open(f'{V}/{d["id"]}/demo.py', 'w').write("import sys, os\nsys.path.insert(0, os.getcwd())\n" + d['demo'].lstrip('\n'))
            open(f'{V}/{d["id"]}/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\n'
                                                    'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            json.dump(dict(property=d['property'], needs=d['needs'], what_it_breaks=d['breaks']),
                      open(f'{V}/{d["id"]}/meta.json', 'w'), indent=1)
            v = validate(d['id'])
            print(d['id'], v, check(d['id']) if v == 'ok' else '', flush=True)
    else:
        for i in sys.argv[2:] or sorted(os.listdir(V)):
            v = validate(i)
            print(i, v, check(i) if v == 'ok' else '', flush=True)


main()
