"""dev.py PROP [name filter] [seconds]: prove and search items of one property, short output"""
import sys, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path[:0] = [HERE, os.environ.get('DEVREPO', '/repo')]
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
from pyvc import runner
runner.load(HERE)
from pyvc.contract import prove, REG
pid = sys.argv[1]
pat = sys.argv[2] if len(sys.argv) > 2 else ''
secs = int(sys.argv[3]) if len(sys.argv) > 3 else 60
for it in REG.props[pid].items:
    if pat not in it.name:
        continue
    if it.kind != 'bounded':
        it.opts = {**it.opts, 'debug': True}
        r = prove(it, secs)
        print(it.kind, it.name, r.status, r.reason, len(r.obligs), 'obl', r.paths, 'paths', r.restarts, 'rs', f'{r.wall:.1f}s',
              r.bounded or '', flush=True)
        if r.status in ('failed', 'undecided'):
            bad = [o for o in r.obligs if o.status != 'proved']
            for o in bad[:3]:
                print('   ', o.name, o.status, (o.info or '')[:400])
            print('   ', len(bad), 'not proved; models', r.models[:3], r.invariants)
    with runner.quiet():
        n, f = it.search(4, 400, 1)
    print('   native', n, f[:1] if f else 'ok', flush=True)
