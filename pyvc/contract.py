"""Contracts, lemmas, the registry, and the proof driver for one of them."""
from __future__ import annotations
import ast
import importlib
import random
import time
import traceback
import types as pytypes
from fractions import Fraction
import z3
from .values import *
from .ctx import explore, Limits, Stats, Obligation, Ctx
from .interp import Interp, fn_node, Ret
from .loops import Fold, LoopStore, Restart, check_fold
from .types import T, Hints, NoModel
from . import strings as S


def resolve(path):
    """'pkg.mod:Cls.attr' -> underlying function, or None when it no longer exists"""
    mod, _, qual = path.partition(':')
    try:
        o = importlib.import_module(mod)
        for p in qual.split('.'):
            if isinstance(o, type):
                for c in o.__mro__:
                    if p in c.__dict__:
                        o = c.__dict__[p]
                        break
                else:
                    return None
                if isinstance(o, (staticmethod, classmethod)):
                    o = o.__func__
                elif isinstance(o, property):
                    o = o.fget
            else:
                o = getattr(o, p)
        if not isinstance(o, (pytypes.FunctionType, type)) and hasattr(o, '__wrapped__'):
            o = o.__wrapped__
        return o
    except (ImportError, AttributeError):
        return None


class Registry:
    def __init__(self):
        self.by_fn = {}
        self.props = {}

    def lookup(self, f):
        return self.by_fn.get(f)


REG = Registry()


class Prop:
    def __init__(self, pid):
        self.id = pid
        self.items = []
        REG.props[pid] = self

    def contract(self, target, requires=None, folds=(), opts=None, use=True, samples=(), statics=None, name=None,
                 quick=400, thorough=20000, note='', **params):
        def deco(spec):
            c = Contract(self.id, target, spec, params, requires, folds, opts or {}, use, samples, statics,
                         name, quick, thorough, note)
            self.items.append(c)
            return spec
        return deco

    def lemma(self, requires=None, opts=None, folds=(), samples=(), targets=(), name=None, quick=400,
              thorough=20000, note='', statics=None, kind='lemma', **params):
        def deco(fn):
            c = Lemma(self.id, fn, params, requires, folds, opts or {}, samples, targets, name, quick, thorough,
                      note, statics, kind)
            self.items.append(c)
            return fn
        return deco

    def bounded(self, bound, targets=(), samples=(), quick=200, thorough=5000, name=None, note='', cases=None,
                **params):
        """A bounded stand-in: only executed on generated inputs, never counted as proved."""
        def deco(fn):
            c = Bounded(self.id, fn, params, bound, targets, samples, name, quick, thorough, note, cases)
            self.items.append(c)
            return fn
        return deco


def consts_of(fns):
    chars, ints, strs = set(), set(), set()
    for f in fns:
        node = fn_node(f) if isinstance(f, pytypes.FunctionType) else None
        if node is None:
            continue
        for n in ast.walk(node):
            if isinstance(n, ast.Constant):
                if isinstance(n.value, str) and len(n.value) <= 40:
                    chars.update(c for c in n.value if c != '\n')
                    strs.add(n.value)
                elif isinstance(n.value, int) and not isinstance(n.value, bool) and abs(n.value) < 10 ** 6:
                    ints.add(n.value)
    return chars, ints, strs


class Item:
    kind = 'item'

    def hints(self, extra=()):
        fns = [self.spec] + [f for f in (self.fns() or []) if f is not None] + list(extra)
        seen = set()
        c, i, s = set(), set(), set()
        todo = list(fns)
        depth = 0
        while todo and len(seen) < 60:
            f = todo.pop(0)
            if f in seen or not isinstance(f, pytypes.FunctionType):
                continue
            seen.add(f)
            a, b, d = consts_of([f])
            c |= a
            i |= b
            s |= d
            node = fn_node(f)
            if node is None:
                continue
            for n in ast.walk(node):          # functions it calls, one level by simple resolution
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
                    o = f.__globals__.get(n.value.id)
                    if isinstance(o, type) and n.attr in o.__dict__:
                        g = o.__dict__[n.attr]
                        g = g.__func__ if isinstance(g, (staticmethod, classmethod)) else g
                        if isinstance(g, pytypes.FunctionType) and (g.__module__ or '').startswith('converter21'):
                            todo.append(g)
        c.update(' a1')
        return Hints(sorted(c), sorted(i | {0, 1, 2}), sorted(s))

    def gen_args(self, rng, hints):
        for _ in range(50):
            args = {}
            if self.samples and rng.random() < 0.25:
                s = rng.choice(self.samples)
                args = dict(zip(self.params, s))
            for p, t in self.params.items():
                if p not in args:
                    args[p] = t.gen(rng, hints)
            if self.requires is None or self.requires(**args):
                return args
        return None

    def run_native(self, args):
        """None if the property holds for these inputs, else a message"""
        raise NotImplementedError

    def search(self, seconds, count, seed, seeds=(), stop=True):
        """bounded concrete search on the real code"""
        rng = random.Random(seed)
        hints = self.hints()
        t0 = time.time()
        n = 0
        fails = []
        pool = [dict(zip(self.params, s)) for s in self.samples if len(s) == len(self.params)] + list(seeds)
        while n < count and time.time() - t0 < seconds:
            if pool:
                args = pool.pop(0)
                try:
                    if self.requires is not None and not self.requires(**args):
                        continue
                except Exception:
                    continue
            else:
                args = self.gen_args(rng, hints)
                if args is None:
                    break
            n += 1
            msg = self.run_native({k: self.params[k].dup(v) for k, v in args.items()})
            if msg is not None:
                fails.append((args, msg))
                if stop:
                    break
        return n, fails


def norm(v):
    """comparable view of native values"""
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return v
    if isinstance(v, (int, float, Fraction)):
        return v
    if isinstance(v, (list,)):
        return [norm(x) for x in v]
    if isinstance(v, tuple):
        return tuple(norm(x) for x in v)
    return v


def same(a, b):
    if isinstance(a, float) and isinstance(b, (float, Fraction, int)) or isinstance(b, float) and isinstance(a, (Fraction, int)):
        return a == b or abs(float(a) - float(b)) < 1e-9 * max(1.0, abs(float(a)))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


class Contract(Item):
    kind = 'contract'

    def __init__(self, pid, target, spec, params, requires, folds, opts, use, samples, statics, name, quick,
                 thorough, note):
        self.pid, self.target, self.spec, self.params = pid, target, spec, params
        self.requires, self.folds, self.opts, self.samples = requires, folds, opts, samples
        self.statics = statics
        self.fn = resolve(target)
        self.name = name or target.split(':')[1]
        self.quick, self.thorough, self.note = quick, thorough, note
        if use and self.fn is not None:
            REG.by_fn[self.fn] = self

    def fns(self):
        return [self.fn] if self.fn is not None else []

    def run_native(self, args):
        vals = list(args.values())
        try:
            exp = self.spec(*[self.params[k].dup(v) for k, v in args.items()])
            eexc = None
        except Exception as e:
            exp, eexc = None, e
        try:
            got = self.fn(*vals)
            gexc = None
        except Exception as e:
            got, gexc = None, e
        if eexc is not None or gexc is not None:
            if eexc is not None and gexc is not None and isinstance(gexc, type(eexc)):
                return None
            if gexc is not None:
                return f'raised {gexc!r}, expected ' + (repr(exp) if eexc is None else repr(eexc))
            return f'returned {got!r}, expected {eexc!r}'
        if not same(norm(got), norm(exp)):
            return f'returned {got!r}, expected {exp!r}'
        return None

    def apply(self, it, f, vals):
        """use of this contract at a call site (the callee's body is not looked at)"""
        if self.requires is not None:
            r = it.zbool(it.call(self.requires, vals, {}))
            it.ctx.oblige(f'{it.opts.get("cname")}: precondition of {self.name}', r)
        vals = vals[:len(self.params)] if len(vals) > len(self.params) and self.opts.get('ignore_extra') else vals
        if len(vals) > len(self.params):
            # trailing parameters the contract fixes to their defaults
            extra = vals[len(self.params):]
            d = list(f.__defaults__ or ())
            for x, y in zip(reversed(extra), reversed(d)):
                if is_symbolic(x) or x != y:
                    return it.call_interp(f, vals, {})
            vals = vals[:len(self.params)]
        for t, v in zip(self.params.values(), vals):
            if not _in_domain(it, t, v):
                return it.call_interp(f, vals, {})
        it.depth += 1
        try:
            return it.call_interp(self.spec, vals, {})
        finally:
            it.depth -= 1

    def body(self, it, vals):
        """run the real body and the spec; emit obligations"""
        ctx = it.ctx
        try:
            got, gexc = it.call_interp(self.fn, vals, {}), None
        except PyRaise as e:
            got, gexc = None, e.exc
        it.depth = 1          # inside the spec, contracts are usable
        try:
            exp, eexc = it.call_interp(self.spec, vals, {}), None
        except PyRaise as e:
            exp, eexc = None, e.exc
        it.depth = 0
        if gexc is not None:
            ok = eexc is not None and isinstance(gexc, type(eexc))
            ctx.oblige(f'{self.name}: exceptional postcondition', ok, f'raised {gexc!r}')
            return
        if eexc is not None:
            ctx.oblige(f'{self.name}: must raise {type(eexc).__name__}', False)
            return
        ctx.oblige(f'{self.name}: result == specification', it.eq(got, exp), lambda: f'got {got!r} expected {exp!r}')

    def targets_list(self):
        return [self.target]


def _in_domain(it, t, v):
    """is the actual argument syntactically inside the contract's parameter type?  (else: inline)"""
    from .types import Int, Real, Str, Bool, OneOf, Char, Opt, ListOf, Tup, Const, Either
    k = it.sym_of(v)
    if isinstance(t, Int):
        if k not in ('int', 'bool'):
            return False
        if t.lo is not None or t.hi is not None:
            e = it.znum(v)
            c = z3.And(*([e >= t.lo] if t.lo is not None else []) + ([e <= t.hi] if t.hi is not None else []))
            r, _ = it.ctx.valid(c, 2000)
            return r == 'yes'
        return True
    if isinstance(t, Real):
        if k not in ('int', 'real', 'bool'):
            return False
        if t.lo is not None:
            e = it.znum(v)
            c = e > frac_to_z3(t.lo) if t.strict else e >= frac_to_z3(t.lo)
            r, _ = it.ctx.valid(c, 2000)
            return r == 'yes'
        return True
    if isinstance(t, Str):
        return k in ('str', 'char') and _str_in(it, t, v)
    if isinstance(t, Char):
        return k == 'char'
    if isinstance(t, Bool):
        return k == 'bool'
    if isinstance(t, Opt):
        return v is None or _in_domain(it, t.t, v)
    if isinstance(t, Const):
        return v is t.v or (not is_symbolic(v) and v == t.v)
    if isinstance(t, ListOf):
        return isinstance(v, (VList, SymList)) and t.exact is None and t.upto is None
    if isinstance(t, OneOf):
        return not is_symbolic(v) and v in t.vals
    if isinstance(t, Either):
        return any(_in_domain(it, u, v) for u in t.ts)
    return False


def _str_in(it, t, v):
    if isinstance(v, str):
        return t.ok(v)
    if t.nonempty:
        r, _ = it.ctx.valid(z3.Length(S.zstr(v)) > 0, 2000)
        if r != 'yes':
            return False
    if not t.excl and t.only is None:
        return True
    for p in S.parts_of(v):
        if p.kind == 'lit':
            if not all(t.ok(c) for c in p.text):
                return False
        elif p.kind == 'int':
            if any((t.excl and c in t.excl) or (t.only is not None and c not in t.only) for c in '-0123456789'):
                return False
        elif p.kind == 'rep':
            if not t.ok(p.text):
                return False
        elif p.kind == 'opq':
            if p.only is not None:
                if not all(t.ok(c) for c in p.only):
                    return False
            elif t.only is not None or not (p.excl and t.excl <= p.excl):
                return False
        else:
            return False
    return True


class Lemma(Item):
    def __init__(self, pid, fn, params, requires, folds, opts, samples, targets, name, quick, thorough, note,
                 statics, kind):
        self.pid, self.spec, self.params, self.requires = pid, fn, params, requires
        self.folds, self.opts, self.samples = folds, opts, samples
        self.targets = [targets] if isinstance(targets, str) else list(targets)
        self.name = name or fn.__name__
        self.quick, self.thorough, self.note = quick, thorough, note
        self.statics = statics
        self.kind = kind
        self.fn = fn

    def fns(self):
        return [self.spec] + [resolve(t) for t in self.targets]

    def run_native(self, args):
        try:
            self.spec(**args)
            return None
        except AssertionError as e:
            tb = traceback.extract_tb(e.__traceback__)
            fr = [x for x in tb if x.filename == self.spec.__code__.co_filename]
            where = fr[-1] if fr else tb[-1]
            return f'assertion failed: {where.line} {e}'
        except Exception as e:
            return f'raised {e!r}'

    def body(self, it, vals):
        it.depth = 1
        try:
            it.call_interp(self.spec, vals, {})
        except PyRaise as e:
            it.ctx.oblige(f'{self.name}: no exception', False, f'raised {e.exc!r}')
        it.depth = 0

    def targets_list(self):
        return self.targets


class Bounded(Item):
    kind = 'bounded'

    def __init__(self, pid, fn, params, bound, targets, samples, name, quick, thorough, note, cases):
        self.pid, self.spec, self.params, self.bound = pid, fn, params, bound
        self.targets = [targets] if isinstance(targets, str) else list(targets)
        self.samples, self.name = samples, name or fn.__name__
        self.quick, self.thorough, self.note = quick, thorough, note
        self.requires = None
        self.fn = fn
        self.cases = cases

    fns = Lemma.fns
    run_native = Lemma.run_native
    targets_list = Lemma.targets_list

    def search(self, seconds, count, seed, seeds=(), stop=True):
        if self.cases is not None:
            t0 = time.time()
            n, fails = 0, []
            for args in self.cases():
                if not isinstance(args, dict):
                    args = dict(zip(self.params, args if isinstance(args, tuple) else (args,)))
                n += 1
                msg = self.run_native(args)
                if msg is not None:
                    fails.append((args, msg))
                    if stop:
                        break
                if time.time() - t0 > seconds:
                    break
            if fails or not self.params_gen():
                return n, fails
            m, f2 = Item.search(self, max(1, seconds - (time.time() - t0)), count, seed, seeds, stop)
            return n + m, fails + f2
        return Item.search(self, seconds, count, seed, seeds, stop)

    def params_gen(self):
        return bool(self.params) and all(p is not None for p in self.params.values())


# ---------------------------------------------------------------------- proving

class ProofResult:
    def __init__(self, item):
        self.item = item
        self.status = None            # proved | failed | unsupported
        self.obligs = []
        self.reason = ''
        self.stats = Stats()
        self.restarts = 0
        self.called = set()
        self.contracts_used = set()
        self.invariants = {}
        self.models = []              # native args extracted from refuting models
        self.paths = 0
        self.completed = 0
        self.wall = 0.0
        self.bounded = None
        self.inexact = False


def prove(item, seconds=120, keep_smt=False):
    res = ProofResult(item)
    t0 = time.time()
    if item.fn is None:
        res.status = 'unsupported'
        res.reason = f'{item.target} does not exist in this tree'
        return res

    class L(Limits):
        pass
    L.deadline = t0 + seconds
    L.max_paths = item.opts.get('max_paths', 6000)
    L.oblig_ms = item.opts.get('oblig_ms', 20000)
    store = LoopStore()
    try:
        for fold, pname in item.folds:
            ek = item.opts.get('elem', None)

            def elem_kind(ctx, pname=pname):
                t = item.params.get(pname) if isinstance(pname, str) else None
                from .types import ListOf, Int
                if isinstance(t, ListOf):
                    return Sym('int', z3.Int('x')) if isinstance(t.t, Int) else t.t.sym(Interp(ctx), 'x')
                return Sym('char', z3.Int('x'))
            for nm, ok in check_fold(fold, elem_kind, res.stats, L):
                res.obligs.append(Obligation(nm, 'proved' if ok else 'refuted'))
        base = list(res.obligs)
        for attempt in range(400):
            store.begin()
            sink = []
            done = [0]
            models = []
            res.called = set()

            def run(ctx):
                opts = dict(item.opts)
                opts['cname'] = item.name
                opts['specdir'] = item.spec.__code__.co_filename
                it = Interp(ctx, REG, store, item.fn if item.kind == 'contract' else None, (), opts)
                vals = []
                for p, t in item.params.items():
                    vals.append(t.sym(it, p))
                for fold, pname in item.folds:
                    v = vals[list(item.params).index(pname)] if isinstance(pname, str) else pname(vals)
                    k, s = it.iterspec(v)
                    if k == 'sym':
                        it.fold_instances.append((fold, s.seqkey, s.n, s.elem))
                if item.statics:
                    item.statics(it, vals)
                if item.requires is not None:
                    it.depth = 1
                    ctx.assume(it.zbool(it.call(item.requires, vals, {})))
                    it.depth = 0
                n0 = len(ctx.sink)
                try:
                    item.body(it, vals)
                    chk = it.opts.get('at_exit')
                    for f in it.opts.get('exit_checks', ()):
                        f(it)
                    for f in it.ctx.memo.get('exit_checks', ()):
                        f(it)
                finally:
                    res.called |= it.called
                    res.contracts_used |= it.contracts_used
                    if ctx.memo.get('uf'):
                        res.inexact = True
                    if ctx.memo.get('bounded') or it.opts.get('bounded_hit'):
                        res.bounded = ctx.memo.get('bounded') or f'loops unrolled {item.opts.get("unroll")} times'
                    for o in ctx.sink[n0:]:
                        if o.status == 'refuted' and o.model is not None and len(models) < 12:
                            try:
                                models.append({p: t.from_model(o.model, v) for (p, t), v in
                                               zip(item.params.items(), vals)})
                            except Exception:
                                pass
                r, _ = ctx.query(None, 2000)
                if r != 'unsat':
                    done[0] += 1
            try:
                res.paths = explore(run, res.stats, sink, keep_smt, L)
            except Restart:
                res.restarts += 1
                continue
            break
        else:
            raise Unsupported('invariant inference did not converge')
        res.obligs = base + sink
        res.completed = done[0]
        res.models = models
        res.invariants = {f'{k[0]}:{k[1]}': v for k, v in store.used.items()}
        if not any(o for o in sink):
            res.status = 'unsupported'
            res.reason = 'no obligation was generated (vacuous)'
        elif all(o.status == 'proved' for o in res.obligs):
            if res.completed == 0:
                res.status = 'unsupported'
                res.reason = 'every path is infeasible (vacuous precondition)'
            else:
                res.status = 'proved'
        elif any(o.status == 'refuted' for o in res.obligs):
            res.status = 'failed'
        else:
            res.status = 'undecided'
            res.reason = 'solver answered unknown'
    except Unsupported as e:
        res.status = 'unsupported'
        res.reason = str(e)
    except PyRaise as e:
        res.status = 'unsupported'
        res.reason = 'exception outside the code under contract: ' + repr(e.exc)
    except (z3.Z3Exception, RecursionError, NotImplementedError) as e:
        res.status = 'unsupported'
        res.reason = f'{type(e).__name__}: {e}'
    except Exception as e:
        res.status = 'unsupported'
        res.reason = 'engine: ' + ''.join(traceback.format_exception_only(e)).strip()
        if item.opts.get('debug'):
            traceback.print_exc()
    res.wall = time.time() - t0
    return res
