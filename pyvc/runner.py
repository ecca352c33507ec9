"""Runs the proofs of one property, cross-checks them against CPython, and reports."""
from __future__ import annotations
import argparse
import contextlib
import glob
import importlib
import io
import json
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import time
import traceback
from fractions import Fraction

from . import fresh

CFG = {}


def load(here):
    fresh.install()
    for f in sorted(glob.glob(os.path.join(here, 'specs', '*.py'))):
        n = os.path.basename(f)[:-3]
        if not n.startswith('_'):
            importlib.import_module('specs.' + n)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


class Timeout(Exception):
    pass


def _alarm(sig, frm):
    raise Timeout()


def show(args):
    out = {}
    for k, v in args.items():
        try:
            r = repr(v)
        except Exception as e:
            r = f'<unprintable {e!r}>'
        out[k] = r[:3000]
    return out


def search(item, seconds, count, seed, seeds=()):
    """concrete runs of the real code; a run that does not come back within 20 s counts as failing"""
    signal.signal(signal.SIGALRM, _alarm)
    orig = item.run_native

    def guarded(args):
        signal.alarm(20)
        try:
            return orig(args)
        except Timeout:
            return 'did not terminate within 20 s'
        finally:
            signal.alarm(0)
    item.run_native = guarded
    try:
        with quiet():
            n, fails = item.search(seconds, count, seed, seeds)
        return n, [(show(a), m) for a, m in fails], fails
    finally:
        del item.run_native


def work(job):
    """prove + cross-check one item; returns a plain dict"""
    pid, idx, mode = job
    from .contract import REG, prove
    item = REG.props[pid].items[idx]
    cfg = CFG
    thorough = cfg['tier'] == 'thorough'
    for d in cfg.get('disabled', ()):
        REG.by_fn.pop(REG.props[d[0]].items[d[1]].fn, None)
    out = dict(pid=pid, idx=idx, name=item.name, kind=item.kind, targets=list(item.targets_list()), note=item.note,
               fails=[], obligs=[], proved=0, total=0, reason='', contracts=[], called=[], invariants={},
               status='', bounded=None, native=0, paths=0, solver_s=0.0, queries=0, unknown=0, cvc5=None,
               restarts=0, bound=getattr(item, 'bound', None))
    t0 = time.time()
    try:
        signal.signal(signal.SIGALRM, _alarm)
        if item.kind == 'bounded':
            missing = [t for t in item.targets if _missing(t)]
            if missing:
                out['status'] = 'skipped'
                out['reason'] = 'no longer exists: ' + ', '.join(missing)
                return out
            n, f, _ = search(item, 300 if thorough else 60, item.thorough if thorough else item.quick, cfg['seed'])
            out['native'] = n
            out['fails'] = f
            out['status'] = 'bounded-ok' if not f else 'bounded-fail'
            return out
        if item.fn is None or any(_missing(t) for t in item.targets_list()):
            out['status'] = 'skipped'
            out['reason'] = 'target no longer exists'
            return out
        budget = 600 if thorough else max(5, min(120, cfg['deadline'] - time.time() - 60))
        with quiet():
            r = prove(item, budget, keep_smt=thorough)
        fill(out, r)
        if mode == 'proof-only':
            return out
        cnt = item.thorough if thorough else item.quick
        n, f, raw = search(item, 120 if thorough else 6, cnt, cfg['seed'])
        out['native'] = n
        out['fails'] = f
        if not f and r.status == 'failed':
            n, f, raw = search(item, 60 if thorough else 25, 200000, cfg['seed'] + 1, r.models)
            out['native'] += n
            out['fails'] = f
            if not f:
                out['status'] = second_look(item, r, out)
        elif not f and r.status in ('unsupported', 'undecided'):
            if r.invariants is not None:
                with quiet():
                    r2 = retry_unrolled(item)
                out['reason'] += '' if r2 is None else f' [bounded retry: {r2.status}]'
                if r2 is not None and r2.status == 'failed':
                    n, f, raw = search(item, 10, 2000, cfg['seed'] + 2, r2.models)
                    out['fails'] = f
                    out['native'] += n
            if not out['fails']:
                n, f, raw = search(item, 60 if thorough else 20, 20000, cfg['seed'] + 3)
                out['native'] += n
                out['fails'] = f
        if thorough and r.status == 'proved':
            out['cvc5'] = recheck(r)
    except Exception:
        out['status'] = 'engine-error'
        out['reason'] = traceback.format_exc()[-1500:]
    finally:
        out['wall'] = time.time() - t0
    return out


def _missing(t):
    from .contract import resolve
    return resolve(t) is None


def fill(out, r):
    out['status'] = r.status
    out['reason'] = r.reason
    out['total'] = len(r.obligs)
    out['proved'] = sum(1 for o in r.obligs if o.status == 'proved')
    out['obligs'] = [(o.name, o.status, (o.info or '')[:400], (str(o.model)[:1500] if o.model is not None else ''))
                     for o in r.obligs if o.status != 'proved'][:10]
    out['oblig_names'] = sorted({o.name for o in r.obligs})[:40]
    out['contracts'] = sorted(r.contracts_used)
    out['called'] = sorted(r.called)
    out['invariants'] = r.invariants
    out['bounded'] = r.bounded
    out['paths'] = r.paths
    out['solver_s'] = r.stats.solver_s
    out['queries'] = r.stats.queries
    out['unknown'] = r.stats.unknown
    out['restarts'] = r.restarts
    out['models'] = [show(m) for m in r.models[:5]]


def retry_unrolled(item):
    """same obligations with every symbolic loop unrolled to a small bound instead of cut"""
    from .contract import prove
    old = item.opts
    item.opts = {**old, 'unroll': 4, 'while_unroll': 6, 'force_unroll': True, 'max_paths': 3000}
    left = CFG['deadline'] - time.time() if CFG['tier'] == 'quick' else 600
    try:
        return prove(item, max(3, min(60, left)))
    finally:
        item.opts = old


def second_look(item, r, out):
    """A failed obligation without a concrete failing input.  When a loop was cut, the failure may only mean
    that no inductive invariant was found among the candidates: decide a bounded unrolling instead."""
    if not (r.invariants or item.folds or r.inexact):
        return 'failed'
    with quiet():
        r2 = retry_unrolled(item)
    if r2.status == 'proved':
        out['reason'] = 'no inductive proof found (loop invariant or string theory); the obligations hold with inputs and loops bounded to 4'\
                        ' elements'
        out['bounded'] = out['reason']
        return 'unsupported'
    if r2.status == 'failed':
        n, f, raw = search(item, 10, 5000, CFG['seed'] + 2, r2.models)
        out['fails'] = f
    return 'failed'


def recheck(r):
    """independent discharge of the recorded obligations by cvc5"""
    ok = other = 0
    t0 = time.time()
    for o in r.obligs:
        if not o.smt2 or time.time() - t0 > 120 or ok + other >= 400:
            continue
        try:
            p = subprocess.run(['cvc5', '--lang=smt2', '--strings-exp', '--tlimit=5000'],
                               input='(set-logic ALL)\n' + o.smt2, capture_output=True, text=True, timeout=20)
            if p.stdout.strip().startswith('unsat'):
                ok += 1
            else:
                other += 1
        except Exception:
            other += 1
    return dict(unsat=ok, undecided=other)


def main(argv, here):
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--list', action='store_true')
    ap.add_argument('--replay')
    ap.add_argument('--only', default='')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    t0 = time.time()
    load(here)
    from .contract import REG
    if a.list:
        for p in sorted(REG.props):
            for i in REG.props[p].items:
                print(p, i.kind, i.name, ','.join(i.targets_list()))
        return 0
    if a.replay:
        return replay(a.replay)
    pid = a.property
    if pid not in REG.props:
        print('unknown property', pid, file=sys.stderr)
        return 2
    CFG.update(deadline=t0 + 600, tier=a.tier, seed=int(os.environ.get('VERIF_SEED') or 1), here=here)
    items = REG.props[pid].items
    jobs = [(pid, i, 'full') for i in range(len(items)) if a.only in items[i].name]
    res = pool(jobs)
    # contracts of other properties this one rests on: prove them too
    deps, todo = {}, sorted({tuple(c) for r in res for c in r['contracts'] if c[0] != pid})
    index = {(p, it.name): (p, i) for p in REG.props for i, it in enumerate(REG.props[p].items)
             if it.kind == 'contract'}
    while todo:
        new = [index[tuple(c)] for c in todo if tuple(c) in index and index[tuple(c)] not in deps]
        rs = pool([(p, i, 'proof-only') for p, i in new])
        for r in rs:
            deps[(r['pid'], r['idx'])] = r
        todo = sorted({tuple(c) for r in rs for c in r['contracts'] if c[0] != pid})
    bad = [k for k, r in deps.items() if r['status'] not in ('proved',)]
    if bad:
        # a callee contract this property relies on is not established: redo the dependants on the callee's body
        badnames = {(p, REG.props[p].items[i].name) for p, i in bad}
        grow = True
        allr = {(r['pid'], r['name']): r for r in list(res) + list(deps.values())}
        while grow:
            grow = False
            for k, r in allr.items():
                if k not in badnames and k[0] != pid and any(tuple(c) in badnames for c in r['contracts']):
                    badnames.add(k)
                    grow = True
        CFG['disabled'] = [index[b] for b in badnames if b in index]
        redo = [(pid, r['idx'], 'full') for r in res if any(tuple(c) in badnames for c in r['contracts'])]
        again = {r['idx']: r for r in pool(redo)}
        res = [again.get(r['idx'], r) for r in res]
    return report(pid, a, here, res, deps, time.time() - t0)


def pool(jobs):
    if not jobs:
        return []
    n = min(8, len(jobs))
    out = []
    ctx = mp.get_context('fork')
    with ctx.Pool(n, maxtasksperchild=1) as p:
        for r in p.imap_unordered(work, jobs, chunksize=1):
            out.append(r)
    return sorted(out, key=lambda r: (r['pid'], r['idx']))


def replay(path):
    from .contract import REG
    d = json.load(open(path))
    for f in d['failures']:
        item = next((i for i in REG.props[d['property']].items if i.name == f['item']), None)
        if item is None or not f.get('args'):
            continue
        args = {k: eval(v, {'Fraction': Fraction}) for k, v in f['args'].items()}
        with quiet():
            m = item.run_native(args)
        print(f['item'], args, '->', m or 'holds')
    return 0


def report(pid, a, here, res, deps, wall):
    known = []
    try:
        known = [k for k in json.load(open(os.path.join(here, 'known_findings.json')))
                 if k.get('property') == pid and k.get('status') == 'known']
    except FileNotFoundError:
        pass
    viol, undecided, hits = [], [], []
    for r in res:
        for args, msg in r['fails']:
            k = next((k for k in known if k.get('item') == r['name'] and k.get('args') == args), None)
            if k is not None:
                hits.append(k)
            else:
                viol.append(dict(item=r['name'], targets=r['targets'], args=args, message=msg,
                                 obligations=r['obligs']))
        if r['status'] == 'failed' and not r['fails']:
            undecided.append(dict(item=r['name'], targets=r['targets'], args=None,
                                  message='obligation not discharged; no failing input found',
                                  obligations=r['obligs'], models=r.get('models')))
    for k in {json.dumps(h, sort_keys=True) for h in hits}:
        print(f'KNOWN-FINDING: property={pid} {json.loads(k)["what"]}')
    total = sum(r['total'] for r in res)
    proved = sum(r['proved'] for r in res)
    proved_items = [r for r in res if r['status'] == 'proved' and not r['bounded']]
    bounded_items = [r for r in res if r['kind'] == 'bounded' or r['bounded']]
    lost = [r for r in res if r['status'] in ('unsupported', 'undecided', 'skipped', 'engine-error')]
    fns = sorted({t for r in proved_items for t in r['targets']})
    ev = dict(
        property=pid, tier=a.tier, seed=CFG['seed'], level='proof' if proved_items else 'exploration',
        coverage=dict(
            obligations=sum(r['total'] for r in res if not r['bounded']),
            discharged=sum(r['proved'] for r in res if not r['bounded']),
            checker_cmd=f'/opt/venv/bin/python {here}/check.py {pid} --tier {a.tier}',
            trusted_base=['pyvc VC generator (/verif/pyvc): symbolic interpretation of the AST of the real functions',
                          'z3 ' + _z3v() + ' (SMT back end)',
                          'intrinsic models of Python/music21 built-ins in /verif/pyvc/intrinsics.py',
                          'CPython (replay and cross-check)'],
            functions_under_contract=fns,
            functions_interpreted=sorted({c for r in proved_items for c in r['called']}),
            contracts_relied_on=sorted({f'{c[0]}:{c[1]}' for r in res for c in r['contracts']}),
            callee_contracts_reproved={f'{k[0]}:{r["name"]}': r['status'] for k, r in deps.items()},
            items=[dict(name=r['name'], kind=r['kind'], status=r['status'], obligations=r['total'],
                        discharged=r['proved'], paths=r['paths'], solver_s=round(r['solver_s'], 3),
                        queries=r['queries'], invariants=r['invariants'], native_runs=r['native'],
                        bounded=r['bounded'] or r['bound'], reason=r['reason'], wall_s=round(r.get('wall', 0), 2),
                        cvc5=r['cvc5']) for r in res],
            solver_time_s=round(sum(r['solver_s'] for r in res), 3),
            solver_queries=sum(r['queries'] for r in res),
            paths=sum(r['paths'] for r in res),
            evaluations=sum(r['native'] for r in res),
            bounded_standins=[dict(name=r['name'], bound=r['bounded'] or r['bound'], runs=r['native'])
                              for r in bounded_items],
            not_established_this_run=[dict(name=r['name'], status=r['status'], reason=r['reason'][:300])
                                      for r in lost],
            samples=[n for r in proved_items for n in r.get('oblig_names', [])[:2]][:12]),
        assumptions=assumptions(res),
        wall_s=round(wall, 2), violations=len(viol) + len(undecided))
    os.makedirs(os.path.join(here, 'evidence'), exist_ok=True)
    with open(os.path.join(here, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for r in res:
        if a.v or r['status'] not in ('proved', 'bounded-ok'):
            print(f'{pid} {r["kind"]:9} {r["name"]:45} {r["status"]:12} {r["proved"]}/{r["total"]} obligations '
                  f'{r["native"]} runs {r.get("wall", 0):.1f}s {r["bounded"] or ""} {r["reason"][:300]}')
    print(f'{pid} {a.tier}: {len(proved_items)} contracts/lemmas proved, {proved}/{total} obligations, '
          f'{len(bounded_items)} bounded stand-ins, {len(lost)} not established, {wall:.1f}s')
    if not viol and not undecided:
        if total == 0:
            print('no obligation was generated', file=sys.stderr)
        return 0
    d = os.path.join(here, 'evidence', 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{pid}-{a.tier}.json')
    with open(path, 'w') as f:
        json.dump(dict(property=pid, how=f'{here}/check.py --replay {path}', failures=viol + undecided), f, indent=1,
                  default=str)
    for v in (viol + undecided)[:6]:
        print(f'  failed: {v["item"]} {v["args"] or ""} {v["message"][:300]} {[o[0] for o in v["obligations"]][:3]}')
    print(f'VIOLATION property={pid} replay={path}' + ('' if viol else ' no-failing-input-found'))
    return 1


def _z3v():
    import z3
    return z3.get_version_string()


BASE_ASSUMPTIONS = [
    'machine floats holding note durations are treated as the exact rationals they denote (music21 opFrac keeps '
    'them exact up to denominator 65535); arithmetic is done over the mathematical rationals and integers',
    'text is a sequence of Unicode code points; str.isdigit and \\d are ASCII digits unless stated',
    'no other thread mutates the objects during a call; module and class constants are as imported',
]


def assumptions(res):
    out = list(BASE_ASSUMPTIONS)
    for r in res:
        if r['note']:
            out.append(f'{r["name"]}: {r["note"]}')
        if r['bounded'] or r['bound']:
            out.append(f'{r["name"]}: bounded ({r["bounded"] or r["bound"]}), not counted as proved')
    return out
