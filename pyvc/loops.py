"""Folds (ghost recursive specifications over sequences) and inductive loop cuts (Houdini)."""
from __future__ import annotations
import ast
import inspect
from fractions import Fraction
import z3
from .values import *
from . import strings as S

SORTS = {'int': z3.IntSort(), 'bool': z3.BoolSort(), 'real': z3.RealSort(), 'str': z3.StringSort(),
         'char': z3.IntSort()}


class Fold:
    """A specification by recursion over a sequence:
         state(0) = init ;  state(i+1) = step(*state(i), elem(i))
       `done(*state)` (optional) marks absorbing states: step leaves them unchanged (this is checked).
       Callable natively: Fold(seq) -> tuple of final components."""
    def __init__(self, name, init, step, done=None, kinds=None, inv=None):
        self.name = name
        self.comps = list(init)
        self.init = list(init.values())
        self.step = step
        self.done = done
        self.inv = inv
        k = {}
        for c, v in init.items():
            k[c] = 'bool' if isinstance(v, bool) else 'int' if isinstance(v, int) else \
                'real' if isinstance(v, (float, Fraction)) else 'str'
        k.update(kinds or {})
        self.kinds = [k[c] for c in self.comps]

    def __call__(self, seq):
        st = tuple(self.init)
        for x in seq:
            st = tuple(self.step(*st, x))
        return st

    # symbolic
    def fn(self, comp, key):
        i = self.comps.index(comp)
        return z3.Function(f'{self.name}.{comp}<{key}>', z3.IntSort(), SORTS[self.kinds[i]])

    def state(self, key, idx):
        out = []
        for c, k in zip(self.comps, self.kinds):
            out.append(Sym(k, self.fn(c, key)(idx)))
        return tuple(out)

    def z(self, it, v, kind):
        if kind == 'bool':
            b = it.zbool(v)
            return z3.BoolVal(b) if isinstance(b, bool) else b
        if kind in ('int', 'real'):
            e = it.znum(v)
            return z3.ToReal(e) if kind == 'real' and z3.is_int(e) else e
        return S.zstr(v)

    def eqs(self, it, st, vals):
        return z3.And(*[s.e == self.z(it, v, k) for s, v, k in zip(st, vals, self.kinds)])

    def run_step(self, it, st, elem):
        from .interp import Frame, fn_node
        f = self.step
        node = fn_node(f)
        fr = Frame(f.__globals__, 'fold.' + self.name, merge=True, file='')
        fr.env = it.bind(f, node, list(st) + [elem], {})
        r = it.run_body(node, fr)
        if not isinstance(r, tuple) or len(r) != len(self.comps):
            raise Unsupported('fold step must return a tuple')
        return r

    def run_pred(self, it, f, st):
        from .interp import Frame, fn_node
        node = fn_node(f)
        fr = Frame(f.__globals__, 'fold.' + self.name, merge=True, file='')
        fr.env = it.bind(f, node, list(st), {})
        r = it.zbool(it.run_body(node, fr))
        return z3.BoolVal(r) if isinstance(r, bool) else r

    def touch(self, it, key, n):
        c = it.ctx
        mk = ('fold', self.name, key)
        if mk in c.memo:
            return
        c.memo[mk] = True
        c.assume(self.eqs(it, self.state(key, z3.IntVal(0)), self.init))
        c.memo.setdefault(('touched', key), []).append((self, n))
        for e, lit in c.memo.get('literals', {}).get(key, ()):
            self.literal(it, key, n, e, lit)
        if self.inv is not None:
            c.assume(self.run_pred(it, self.inv, self.state(key, n)))

    def literal(self, it, key, n, e, lit):
        it.ctx.assume(z3.Implies(e == z3.StringVal(lit), self.eqs(it, self.state(key, n), self(lit))))

    def unfold(self, it, key, k, n, elem, guard=None):
        """assume state(k+1) = step(state(k), elem) and, for absorbing states, state(n) = state(k+1)"""
        c = it.ctx
        mk = ('unfold', self.name, key, str(k))
        if mk in c.memo:
            return
        c.memo[mk] = True
        st = self.state(key, k)
        nxt = self.run_step(it, st, elem)
        st1 = self.state(key, k + 1)
        facts = [self.eqs(it, st1, nxt)]
        if self.inv is not None:
            facts.append(self.run_pred(it, self.inv, st))
            facts.append(self.run_pred(it, self.inv, st1))
        if self.done is not None:
            d = self.run_pred(it, self.done, st1)
            fin = self.state(key, n)
            facts.append(z3.Implies(d, z3.And(*[a.e == b.e for a, b in zip(fin, st1)])))
        for f in facts:
            c.assume(f if guard is None else z3.Implies(guard, f))

    def apply(self, it, seq):
        """value of the fold over a whole engine sequence"""
        kind, s = it.iterspec(seq)
        if kind == 'concrete':
            st = tuple(self.init)
            for x in s:
                st = self.run_step(it, st, x)
            return st
        if s.seqkey is None:
            raise Unsupported('fold over a derived sequence')
        self.touch(it, s.seqkey, s.n)
        return self.state(s.seqkey, s.n)


def check_fold(fold, elem_kind, stats, limits):
    """Obligations of the fold itself: done is absorbing, inv is inductive.  -> list of (name, ok)"""
    from .ctx import Ctx
    from .interp import Interp
    out = []
    for what in ('done', 'inv'):
        f = getattr(fold, what)
        if f is None:
            continue
        ctx = Ctx([], stats, [], limits=limits)
        it = Interp(ctx)
        st = tuple(Sym(k, z3.Const(f'st.{c}', SORTS[k])) for c, k in zip(fold.comps, fold.kinds))
        x = elem_kind(ctx)
        ctx.assume(fold.run_pred(it, f, st))
        nxt = fold.run_step(it, st, x)
        if what == 'done':
            r, _ = ctx.valid(fold.eqs(it, st, nxt))
            out.append((f'fold {fold.name}: finished states are absorbing', r == 'yes'))
        else:
            nst = tuple(Sym(k, fold.z(it, v, k)) for v, k in zip(nxt, fold.kinds))
            r, _ = ctx.valid(fold.run_pred(it, f, nst))
            ctx2 = Ctx([], stats, [], limits=limits)
            it2 = Interp(ctx2)
            ist = tuple(Sym(k, fold.z(it2, v, k)) for v, k in zip(fold.init, fold.kinds))
            r2, _ = ctx2.valid(fold.run_pred(it2, f, ist))
            out.append((f'fold {fold.name}: invariant is inductive', r == 'yes' and r2 == 'yes'))
    return out


def assigned_names(nodes):
    out = set()
    todo = list(nodes)
    while todo:
        n = todo.pop()
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            if hasattr(n, 'name'):
                out.add(n.name)
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            # comprehension targets are local to it; walrus is not, ignore targets
            for g in n.generators:
                todo.append(g.iter)
                todo.extend(g.ifs)
            continue
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        todo.extend(ast.iter_child_nodes(n))
    return out


def reachable(roots):
    seen = {}
    todo = list(roots)
    while todo:
        v = todo.pop()
        if isinstance(v, (VObj, VList, VDict, VSet, SymMap, SymList)):
            if id(v) in seen:
                continue
            seen[id(v)] = v
            if isinstance(v, VObj):
                todo.extend(v.d.values())
            elif isinstance(v, (VList, VSet)):
                todo.extend(v.items)
            elif isinstance(v, VDict):
                for a, b in v.entries:
                    todo += [a, b]
            elif isinstance(v, SymMap):
                todo += [e[2] for e in v.entries if e[2] is not None]
            elif isinstance(v, SymList):
                todo += [e[1] for e in v.entries]
        elif isinstance(v, tuple):
            todo.extend(v)
    return seen


class Restart(Exception):
    pass


class LoopStore:
    """Houdini state shared by all paths and iterations of one proof attempt."""
    def __init__(self):
        self.dropped = {}     # loop key -> set of candidate descriptions that failed
        self.kinds = {}       # loop key -> {var: set(kinds)}
        self.used = {}        # loop key -> surviving candidates (last run)
        self.changed = False
        self.cuts = set()
        self.noseg = set()    # loops over characters that are not stop-at-certain-characters loops

    def begin(self):
        self.changed = False
        self.used = {}

    def is_cut(self, key):
        return False

    # ------------------------------------------------------------
    def cut(self, it, st, fr, spec):
        if it.probing:
            raise _Stop()
        ctx = it.ctx
        isfor = spec is not None
        key = (fr.qual, st.lineno, st.col_offset)
        self.cuts.add(key)
        dropped = self.dropped.setdefault(key, set())
        kinds = self.kinds.setdefault(key, {})
        names = assigned_names(st.body)
        if isfor:
            tnames = assigned_names([st.target])
        else:
            tnames = set()
            names |= assigned_names([st.test])
        names |= tnames
        # variables live in this frame or an enclosing one
        def get(n):
            f = fr
            while f is not None:
                if n in f.env:
                    return f.env[n]
                f = f.parent
            return UNDEF
        entry = {n: get(n) for n in sorted(names)}
        for n, v in entry.items():
            kk = self.kind_of(it, v)
            ks = kinds.setdefault(n, set())
            if kk not in ks:
                ks.add(kk)
                self.changed = True
        if self.changed:
            raise Restart()
        insts = it.fold_instances
        n_expr = spec.n if isfor else None

        # ---- initialisation: candidates must hold on entry (k = 0)
        zero = z3.IntVal(0)
        for fold, seqkey, n, elem in insts:
            fold.touch(it, seqkey, n)
        cands = self.candidates(it, entry, insts, key, fr)
        for d, fn in cands:
            if d in dropped:
                continue
            e = fn(entry, zero)
            if e is None:
                continue
            v, _ = ctx.valid(e, 3000)
            if v != 'yes':
                dropped.add(d)
                self.changed = True
        if self.changed:
            raise Restart()

        # ---- arbitrary iteration
        k = ctx.fresh_int('k')
        ctx.assume(k >= 0)
        hav = {}
        for n in sorted(names):
            if n in tnames and n not in assigned_names(st.body):
                hav[n] = UNDEF
                continue
            ks = sorted(kinds[n])
            c = ctx.choose([True] * len(ks)) if len(ks) > 1 else 0
            hav[n] = self.havoc(it, ks[c], n, entry[n])
        for n, v in hav.items():
            self.put(fr, n, v)
        live = [(d, fn) for d, fn in cands if d not in dropped]
        self.used[key] = [d for d, _ in live]
        for d, fn in live:
            e = fn(hav, k)
            if e is not None:
                ctx.assume(e)
        if isfor:
            ctx.assume(k <= n_expr)
        roots = [v for f in self.frames(fr) for v in f.env.values()] + list(it.statics.values())
        pre = reachable(roots)
        mark = len(it.mutlog)
        which = ctx.choose([True, True])
        if which == 1:
            # loop exit
            if isfor:
                ctx.assume(k == n_expr)
                r, _ = ctx.query(None, ctx.limits.branch_ms)
                if r == 'unsat':
                    raise PathEnd()
            else:
                self.unfold_all(it, insts, k)
                if it.truth(it.eval(st.test, fr)):
                    raise PathEnd('guard')
            it.exec_block(st.orelse, fr)
            return
        from .interp import Brk, Cont
        if isfor:
            ctx.assume(k < n_expr)
        self.unfold_all(it, insts, k)
        if isfor:
            it.assign(st.target, spec.elem(k), fr)
        else:
            if not it.truth(it.eval(st.test, fr)):
                raise PathEnd('guard')
        try:
            it.exec_block(st.body, fr)
        except Brk:
            return
        except Cont:
            pass
        # back edge
        for o in it.mutlog[mark:]:
            if id(o) in pre:
                raise Unsupported(f'loop at {key} modifies the heap on its back edge')
            if isinstance(o, type):
                raise Unsupported('loop modifies class state')
        end = {n: get(n) for n in sorted(names)}
        for n, v in end.items():
            if n in tnames and n not in assigned_names(st.body):
                continue
            kk = self.kind_of(it, v)
            if kk not in kinds[n]:
                kinds[n].add(kk)
                self.changed = True
        for d, fn in live:
            if d in dropped:
                continue
            e = fn(end, k + 1)
            if e is None:
                continue
            v, _ = ctx.valid(e, 4000)
            if v != 'yes':
                dropped.add(d)
                self.changed = True
        if self.changed:
            raise Restart()
        raise PathEnd('back edge')

    def unfold_all(self, it, insts, k):
        for fold, seqkey, n, elem in insts:
            r, _ = it.ctx.valid(k < n, 1000)
            if r == 'yes':
                fold.unfold(it, seqkey, k, n, elem(k))
            else:
                fold.unfold(it, seqkey, k, n, elem(k), guard=k < n)

    def frames(self, fr):
        while fr is not None:
            yield fr
            fr = fr.parent

    def put(self, fr, n, v):
        f = fr
        while f is not None:
            if n in f.env:
                f.env[n] = v
                return
            f = f.parent
        fr.env[n] = v

    def kind_of(self, it, v):
        if v is UNDEF:
            return 'undef'
        if v is None:
            return 'None'
        k = it.sym_of(v)
        if k:
            if k == 'str' and isinstance(v, str) and len(v) == 1:
                return 'str'
            return k
        if isinstance(v, tuple):
            return 'other'
        return 'other'

    def havoc(self, it, kind, name, entry):
        if kind == 'undef':
            return UNDEF
        if kind == 'None':
            return None
        if kind == 'other':
            # heap reference or opaque value: must not be rebound in the loop
            return entry
        return it.ctx.fresh(kind, name)

    # ------------------------------------------------------------
    def candidates(self, it, entry, insts, key, fr):
        out = []

        def num(v):
            return it.sym_of(v) in ('int', 'real', 'bool') and it.sym_of(v) != 'bool'

        def isb(v):
            return it.sym_of(v) == 'bool'

        def eqv(a, b):
            e = it.eq(a, b)
            return z3.BoolVal(e) if isinstance(e, bool) else e

        def same(v, w):
            kv, kw = it.sym_of(v), it.sym_of(w)
            if kv is None or kw is None:
                return False
            g = {'int': 'n', 'real': 'n', 'bool': 'b', 'str': 's', 'char': 's'}
            return g[kv] == g[kw]

        states = []
        for fold, seqkey, n, elem in insts:
            for c, kd in zip(fold.comps, fold.kinds):
                def term(k, fold=fold, c=c, kd=kd, seqkey=seqkey):
                    return Sym(kd, fold.fn(c, seqkey)(k))
                states.append((f'{fold.name}.{c}<{seqkey}>', kd, term))
            out.append((f'k <= len<{seqkey}>', lambda env, k, n=n: k <= n))
            for nm_ in entry:
                out.append((f'{nm_} <= len<{seqkey}>', lambda env, k, n=n, v=nm_:
                            it.znum(env[v]) <= n if num(env[v]) else None))
            if fold.done is not None:
                def nd(env, k, fold=fold, seqkey=seqkey):
                    return z3.Not(fold.run_pred(it, fold.done, fold.state(seqkey, k)))
                out.append((f'not done {fold.name}<{seqkey}>', nd))
        for n, ev in entry.items():
            # unchanged
            if it.sym_of(ev) is not None:
                out.append((f'{n} == entry', lambda env, k, n=n, ev=ev:
                            eqv(env[n], ev) if same(env[n], ev) else z3.BoolVal(False)))
            out.append((f'{n} is entry', lambda env, k, n=n, ev=ev:
                        z3.BoolVal(True) if env[n] is ev else
                        (z3.BoolVal(False) if (ev is None or env[n] is None or it.sym_of(ev) is None) else None)))
            out.append((f'{n} >= 0', lambda env, k, n=n:
                        it.znum(env[n]) >= 0 if num(env[n]) else None))
            out.append((f'{n} >= 1', lambda env, k, n=n:
                        it.znum(env[n]) >= 1 if num(env[n]) else None))
            out.append((f'{n} == k', lambda env, k, n=n:
                        eqv(env[n], Sym('int', k)) if num(env[n]) else None))
            if num(ev):
                out.append((f'{n} == entry + k', lambda env, k, n=n, ev=ev:
                            eqv(env[n], it.binop('+', ev, Sym('int', k))) if num(env[n]) else None))
                out.append((f'{n} == entry - k', lambda env, k, n=n, ev=ev:
                            eqv(env[n], it.binop('-', ev, Sym('int', k))) if num(env[n]) else None))
                out.append((f'{n} >= entry', lambda env, k, n=n, ev=ev:
                            it.zbool(it.compare('>=', env[n], ev)) if num(env[n]) else None))
                out.append((f'{n} <= entry', lambda env, k, n=n, ev=ev:
                            it.zbool(it.compare('<=', env[n], ev)) if num(env[n]) else None))
            for nm, kd, term in states:
                out.append((f'{n} == {nm}', lambda env, k, n=n, term=term:
                            eqv(env[n], term(k)) if same(env[n], term(k)) else
                            (None if env[n] is None else z3.BoolVal(False))))
                if kd == 'bool':
                    out.append((f'{n} == not {nm}', lambda env, k, n=n, term=term:
                                z3.Not(eqv(env[n], term(k))) if isb(env[n]) else
                                (None if env[n] is None else z3.BoolVal(False))))
                    out.append((f'({n} is None) == {nm}', lambda env, k, n=n, term=term:
                                term(k).e if env[n] is None else z3.Not(term(k).e)))
                    out.append((f'({n} is None) != {nm}', lambda env, k, n=n, term=term:
                                z3.Not(term(k).e) if env[n] is None else term(k).e))
                if kd in ('int', 'real') and num(ev):
                    out.append((f'{n} == entry + {nm}', lambda env, k, n=n, term=term, ev=ev:
                                eqv(env[n], it.binop('+', ev, term(k))) if num(env[n]) else None))
                    out.append((f'{n} == entry - {nm}', lambda env, k, n=n, term=term, ev=ev:
                                eqv(env[n], it.binop('-', ev, term(k))) if num(env[n]) else None))
        # differences and sums of two loop variables
        nums = [n for n, ev in entry.items() if num(ev)]
        for nm, kd, term in states:
            if kd not in ('int', 'real'):
                continue
            for a in nums:
                for b in nums:
                    if a != b:
                        out.append((f'{a} - {b} == {nm}', lambda env, k, a=a, b=b, term=term:
                                    it.znum(env[a]) - it.znum(env[b]) == term(k).e
                                    if num(env[a]) and num(env[b]) else None))
                    if a < b:
                        out.append((f'{a} + {b} == {nm}', lambda env, k, a=a, b=b, term=term:
                                    it.znum(env[a]) + it.znum(env[b]) == term(k).e
                                    if num(env[a]) and num(env[b]) else None))
        # guarded equalities
        for nm, kd, term in states:
            if kd != 'bool':
                continue
            for n, ev in entry.items():
                if it.sym_of(ev) is not None:
                    out.append((f'not {nm} => {n} == entry', lambda env, k, n=n, term=term, ev=ev:
                                z3.Implies(z3.Not(term(k).e), eqv(env[n], ev) if same(env[n], ev)
                                           else z3.BoolVal(False))))
                for nm2, kd2, term2 in states:
                    if nm2 != nm:
                        out.append((f'{nm} => {n} == {nm2}', lambda env, k, n=n, term=term, term2=term2:
                                    z3.Implies(term(k).e, eqv(env[n], term2(k)))
                                    if same(env[n], term2(k)) else
                                    (z3.Not(term(k).e) if env[n] is None else z3.BoolVal(False))))
        # user supplied candidate expressions over local names
        for text in it.opts.get('inv', ()):
            tree = ast.parse(text, mode='eval').body
            used = {x.id for x in ast.walk(tree) if isinstance(x, ast.Name)}

            def usr(env, k, tree=tree, used=used):
                from .interp import Frame
                f2 = Frame(fr.globs, 'inv', parent=fr, merge=True)
                f2.env = {**{a: b for a, b in env.items() if b is not UNDEF}, '_k': Sym('int', k)}
                for u in used:
                    if u in env and env[u] is UNDEF:
                        return None
                try:
                    r = it.zbool(it.eval(tree, f2))
                except PyRaise:
                    return None
                return z3.BoolVal(r) if isinstance(r, bool) else r
            if all(self._known(u, entry, fr) for u in used):
                out.append((f'hint {text}', usr))
        return out

    def _known(self, u, entry, fr):
        if u in entry or u == '_k':
            return True
        f = fr
        while f is not None:
            if u in f.env:
                return True
            f = f.parent
        return u in fr.globs or u in __builtins__ if isinstance(__builtins__, dict) else hasattr(__builtins__, u)


# ---------------------------------------------------------------------------------------------------------------
# Loops over the characters of a text that do nothing until they meet one of certain characters.
# In state s the body leaves everything unchanged for the characters of a class K(s) (decided by executing the body on
# an arbitrary character).  A run of such characters is a no-op, so the text is split as  run + c + rest  with c outside
# K(s), the body is executed on c, and the loop goes on with rest: complete for texts of every length, no invariant.
_CLASS = {}
MAXSTOPS = 5
ALPHABET = 0x2FFFF


def _enum(cond, c, limit):
    """the codes satisfying cond, or None when there are more than limit"""
    s = z3.Solver()
    s.set('timeout', 2000)
    s.add(c >= 0, c <= ALPHABET, cond)
    out = set()
    while len(out) <= limit:
        r = s.check()
        if r == z3.unsat:
            return out
        if r != z3.sat:
            return None
        v = s.model().eval(c, model_completion=True).as_long()
        out.add(v)
        s.add(c != v)
    return None


def _vars(e, seen):
    todo = [e]
    while todo:
        t = todo.pop()
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            seen.add(t.sexpr())
        todo.extend(t.children())
    return seen


def _has_uf(e):
    todo = [e]
    while todo:
        t = todo.pop()
        if z3.is_app(t) and t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            return True
        todo.extend(t.children())
    return False


class _Stop(Exception):
    """the body of a probed loop reached another symbolic loop"""


def skip_class(it, st, fr, key, enum=False, pc=True):
    """('stop', set) | ('skip', set): characters at which the body does something / does nothing; None: cannot say"""
    from .interp import Brk, Cont, Ret
    from .ctx import Ctx
    outer = it.ctx
    names = sorted(assigned_names(st.body) | assigned_names([st.target]))
    tnames = assigned_names([st.target])
    frames = []
    f = fr
    while f is not None:
        frames.append((f, dict(f.env)))
        f = f.parent
    roots = [v for f, e in frames for v in e.values()] + list(it.statics.values()) + list(it.live.values())
    pre = reachable(roots)
    c = z3.Int('seg!char')
    stopping = []              # conditions under which the body may do something
    trace = []
    mark = len(it.mutlog)
    sink = []
    it.probing += 1
    try:
        for _ in range(60):
            sub = Ctx(trace, outer.stats, sink, False, outer.limits)
            sub.pc = list(outer.pc) if pc else []
            sub.memo = dict(outer.memo)
            sub.counter = outer.counter + 100000
            it.ctx = sub
            for f, e in frames:
                f.env.clear()
                f.env.update(e)
            n0 = len(sub.pc)
            sub.assume(z3.And(c >= 0, c <= ALPHABET))
            same = False
            try:
                it.assign(st.target, (Sym('int', z3.Int('seg!pos')), Sym('char', c)) if enum else Sym('char', c), fr)
                try:
                    it.exec_block(st.body, fr)
                    same = True
                except Cont:
                    same = True
                except (Brk, Ret, PyRaise, _Stop):
                    same = False
                if same:
                    for f, e in frames:
                        for k in set(e) | set(f.env):
                            if f is fr and k in tnames:
                                continue
                            if not _same(e.get(k, UNDEF), f.env.get(k, UNDEF)):
                                same = False
                alive = True
            except PathEnd:
                alive = False
            if sink:
                return None
            if any(id(o) in pre or isinstance(o, type) for o in it.mutlog[mark:]):
                return 'mutated'
            if alive and not same:
                # (dropping a conjunct only makes more characters count as stops)
                stopping.append(z3.And(*[e for e in sub.pc[n0:] if not isinstance(e, bool) and _vars(e, set()) <= {'seg!char'}]))
            trace = sub.trace[:sub.pos]
            while trace and not trace[-1].alts:
                trace.pop()
            if not trace:
                break
            d = trace[-1]
            d.choice = d.alts.pop(0)
        else:
            return None
    finally:
        it.ctx = outer
        it.probing -= 1
        for f, e in frames:
            f.env.clear()
            f.env.update(e)
    cond = z3.Or(*stopping) if stopping else z3.BoolVal(False)
    k = cond.sexpr()
    if k not in _CLASS:
        stop = _enum(cond, c, 64)
        if stop is not None:
            _CLASS[k] = ('stop', frozenset(chr(x) for x in stop))
        else:
            skip = None if _has_uf(cond) else _enum(z3.Not(cond), c, 64)
            _CLASS[k] = None if skip is None else ('skip', frozenset(chr(x) for x in skip))
    return _CLASS[k]


def _same(a, b):
    if a is b:
        return True
    if isinstance(a, Sym) and isinstance(b, Sym):
        return a.k == b.k and a.e is not None and b.e is not None and a.e.eq(b.e)
    if isinstance(a, (int, float, str, bool, Fraction)) and type(a) is type(b):
        return a == b
    return False


def segment_for(it, st, spec, fr):
    """True when the whole loop was executed this way (on this path)"""
    from .interp import Brk, Cont
    if it.probing:
        raise _Stop()
    key = (fr.qual, st.lineno, st.col_offset)
    store = it.loops
    if key in store.noseg:
        return False

    def give_up():
        store.noseg.add(key)
        raise Restart()
    ctx = it.ctx
    todo = list(S.parts_of(spec.rope))
    back, enum = spec.back, spec.enum
    if back:
        todo.reverse()
    pos = [z3.IntVal(enum or 0)]
    cls = [None, False]
    tnames = assigned_names([st.target])
    stops = 0

    def current():
        if not cls[1]:
            r = skip_class(it, st, fr, key, enum is not None, False)
            if r is None or r == 'mutated' or len(r[1]) > 8:
                r = skip_class(it, st, fr, key, enum is not None)
            if r is None or r == 'mutated':
                give_up()
            cls[0], cls[1] = r, True
        return cls[0]

    def may_stop(chars_known, neg, k):
        """can a character of the block (only chars / all but chars) be a stop?"""
        kind, cs = k
        if kind == 'stop':
            return bool(cs - chars_known) if neg else bool(cs & chars_known)
        return True if neg else bool(chars_known - cs)

    def step(ch):
        cls[1] = False
        if enum is None:
            it.assign(st.target, ch, fr)
        else:
            i = z3.simplify(pos[0])
            it.assign(st.target, (i.as_long() if z3.is_int_value(i) else Sym('int', i), ch), fr)
            pos[0] = pos[0] + 1
        try:
            it.exec_block(st.body, fr)
        except Cont:
            pass

    def skip(n):
        for x in tnames:          # whatever the last skipped character was
            fr.env[x] = UNDEF
        if enum is not None:
            pos[0] = pos[0] + n
    try:
        while todo:
            p = todo.pop(0)
            if p.kind == 'lit':
                for ch in (reversed(p.text) if back else p.text):
                    step(ch)
                continue
            if p.kind == 'chr':
                step(Sym('char', p.e))
                continue
            k = current()
            if p.kind == 'int':
                if may_stop(frozenset('0123456789-'), False, k):
                    give_up()
                skip(S.length(S.mk([p])))
                continue
            if p.kind == 'rep':
                if any(may_stop(frozenset(ch), False, k) for ch in p.text):
                    give_up()
                skip(p.e)
                continue
            if p.kind != 'opq':
                give_up()
            if p.only is not None:
                if not may_stop(p.only, False, k):
                    skip(z3.Length(p.e))
                    continue
            elif p.excl is not None and not may_stop(p.excl, True, k):
                skip(z3.Length(p.e))
                continue
            stops += 1
            if stops > MAXSTOPS:
                give_up()
            kind, cs = k
            none = z3.And(*[z3.Not(z3.Contains(p.e, z3.StringVal(x))) for x in sorted(cs)]) if kind == 'stop' else None
            mk = ('seg', p.e.sexpr(), kind, cs, back)
            if mk not in ctx.memo:
                if ctx.choose([True, True]) == 0:
                    ctx.memo[mk] = None
                    if kind == 'stop':
                        ctx.assume(none)
                    else:
                        cl = [z3.Re(x) for x in sorted(cs)]
                        ctx.assume(p.e == z3.StringVal('') if not cl else
                                   z3.InRe(p.e, z3.Star(z3.Union(*cl) if len(cl) > 1 else cl[0])))
                else:
                    a, ch, b = ctx.fresh_str('sa'), ctx.fresh_int('sc'), ctx.fresh_str('sb')
                    ctx.assume(p.e == (z3.Concat(b, z3.StrFromCode(ch), a) if back else z3.Concat(a, z3.StrFromCode(ch), b)))
                    ctx.assume(z3.And(ch >= 0, ch <= ALPHABET))
                    if kind == 'stop':
                        ctx.assume(z3.Or(*[ch == ord(x) for x in sorted(cs)]))
                        for x in sorted(cs):
                            ctx.assume(z3.Not(z3.Contains(a, z3.StringVal(x))))
                            ctx.assume(z3.Implies(ch == ord(x), z3.Contains(p.e, z3.StringVal(x))))
                    else:
                        for x in sorted(cs):
                            ctx.assume(ch != ord(x))
                        if cs:
                            cl = [z3.Re(x) for x in sorted(cs)]
                            ctx.assume(z3.InRe(a, z3.Star(z3.Union(*cl) if len(cl) > 1 else cl[0])))
                        else:
                            ctx.assume(a == z3.StringVal(''))
                    for x in sorted(p.excl or ()):
                        ctx.assume(ch != ord(x))
                    if p.only is not None:
                        ctx.assume(z3.Or(*[ch == ord(x) for x in sorted(p.only)]))
                    ctx.memo[mk] = (ch, b, z3.Length(a))
                r, _ = ctx.query(None, ctx.limits.branch_ms)
                if r == 'unsat':
                    raise PathEnd()
            got = ctx.memo[mk]
            if got is None:
                skip(z3.Length(p.e))
                continue
            ch, b, run = got
            skip(run)
            todo.insert(0, Part('opq', e=b, excl=p.excl, only=p.only))
            step(Sym('char', ch))
    except Brk:
        return True
    it.exec_block(st.orelse, fr)
    return True
