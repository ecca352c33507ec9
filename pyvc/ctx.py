"""Path context: decisions, path condition, solver queries, obligations."""
from __future__ import annotations
import time
import z3
from .values import PathEnd, Unsupported, Sym


class Limits:
    branch_ms = 4000
    oblig_ms = 20000
    max_paths = 6000
    deadline = None


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.unknown = 0


class Obligation:
    __slots__ = ('name', 'status', 'model', 'info', 'smt2', 'pathlog')

    def __init__(self, name, status, model=None, info='', smt2=None, pathlog=None):
        self.name = name
        self.status = status      # proved | refuted | unknown
        self.model = model
        self.info = info
        self.smt2 = smt2
        self.pathlog = pathlog


class Decision:
    __slots__ = ('choice', 'alts')

    def __init__(self, choice, alts):
        self.choice = choice
        self.alts = alts


class Ctx:
    def __init__(self, trace, stats, sink, keep_smt=False, limits=Limits):
        self.trace = trace
        self.pos = 0
        self.pc = []
        self.stats = stats
        self.sink = sink            # list of Obligation
        self.counter = 0
        self.solver = None
        self.added = 0
        self.keep_smt = keep_smt
        self.limits = limits
        self.log = []
        self.memo = {}

    # -- naming
    def name(self, prefix):
        self.counter += 1
        return f'{prefix}!{self.counter}'

    def fresh_int(self, p='i'):
        return z3.Int(self.name(p))

    def fresh_bool(self, p='b'):
        return z3.Bool(self.name(p))

    def fresh_real(self, p='r'):
        return z3.Real(self.name(p))

    def fresh_str(self, p='s'):
        return z3.String(self.name(p))

    def fresh(self, kind, p='v'):
        if kind == 'int':
            return Sym('int', self.fresh_int(p))
        if kind == 'real':
            return Sym('real', self.fresh_real(p))
        if kind == 'bool':
            return Sym('bool', self.fresh_bool(p))
        if kind == 'str':
            e = self.fresh_str(p)
            return Sym('str', e, seqkey=str(e))
        if kind == 'char':
            c = self.fresh_int(p)
            self.assume(z3.And(c >= 0, c <= 0x10FFFF))
            return Sym('char', c)
        raise Unsupported('fresh ' + kind)

    # -- solver
    def _sync(self):
        if self.solver is None:
            self.solver = z3.Solver()
            self.added = 0
        while self.added < len(self.pc):
            self.solver.add(self.pc[self.added])
            self.added += 1

    def query(self, extra, ms):
        """satisfiability of pc /\\ extra -> ('sat'|'unsat'|'unknown', model)"""
        if self.limits.deadline and time.time() > self.limits.deadline:
            raise Unsupported('time budget of the proof attempt exhausted')
        self._sync()
        s = self.solver
        s.set('timeout', ms)
        t = time.time()
        s.push()
        try:
            if extra is not None:
                s.add(extra)
            r = s.check()
            m = s.model() if r == z3.sat else None
        finally:
            s.pop()
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        if r == z3.unknown:
            self.stats.unknown += 1
            # second attempt, non-incremental
            t = time.time()
            s2 = z3.Solver()
            s2.set('timeout', ms)
            for c in self.pc:
                s2.add(c)
            if extra is not None:
                s2.add(extra)
            r = s2.check()
            m = s2.model() if r == z3.sat else None
            self.stats.queries += 1
            self.stats.solver_s += time.time() - t
        return str(r), m

    def assume(self, e):
        if isinstance(e, bool):
            if not e:
                raise PathEnd('assumed false')
            return
        self.pc.append(e)

    def choose(self, conds, label=''):
        """conds: list of z3 Bool / True.  Returns the index taken on this path."""
        if self.pos < len(self.trace):
            d = self.trace[self.pos]
            self.pos += 1
            c = conds[d.choice]
            if c is not True:
                self.pc.append(c)
            return d.choice
        feas = []
        for i, c in enumerate(conds):
            if c is True:
                feas.append(i)
                continue
            if c is False:
                continue
            r, _ = self.query(c, self.limits.branch_ms)
            if r != 'unsat':
                feas.append(i)
        if not feas:
            raise PathEnd('infeasible')
        d = Decision(feas[0], feas[1:])
        self.trace.append(d)
        self.pos += 1
        c = conds[d.choice]
        if c is not True:
            self.pc.append(c)
        return d.choice

    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        if isinstance(cond, Sym):
            cond = cond.e
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.choose([cond, z3.Not(cond)]) == 0

    def valid(self, e, ms=None):
        """'yes' | 'no' | 'unknown', model of the negation"""
        if isinstance(e, bool):
            if e:
                return 'yes', None
            r, m = self.query(None, ms or self.limits.oblig_ms)
            return ('yes' if r == 'unsat' else 'no' if r == 'sat' else 'unknown'), m
        r, m = self.query(z3.Not(e), ms or self.limits.oblig_ms)
        return ('yes' if r == 'unsat' else 'no' if r == 'sat' else 'unknown'), m

    def arith_proof(self, e, ms):
        """prove e from the string-free part of the path condition alone (dropping assumptions is sound)"""
        if _has_str(e):
            return False
        cs = [c for c in self.pc if not _has_str(c)]
        t = time.time()
        ok = False
        for i, mk in enumerate((lambda: z3.Solver(), lambda: z3.Then('simplify', 'solve-eqs', 'smt').solver(),
                                lambda: z3.Then('simplify', 'solve-eqs', 'qfnra-nlsat').solver())):
            try:
                s = mk()
                s.set('timeout', ms)
                for c in cs:
                    s.add(c)
                s.add(z3.Not(e))
                self.stats.queries += 1
                r = s.check()
                if r == z3.unsat:
                    ok = True
                    break
                if r == z3.sat and i != 2:
                    break
            except z3.Z3Exception:
                continue
        self.stats.solver_s += time.time() - t
        return ok

    def oblige(self, name, e, info=''):
        """Record an obligation; afterwards the path continues under the assumption that it holds."""
        if isinstance(e, Sym):
            e = e.e
        if self.pos < len(self.trace):
            # same prefix of decisions as an earlier path: this very obligation was already decided there
            if not isinstance(e, bool):
                self.pc.append(e)
            return 'proved'
        smt2 = None
        if self.keep_smt:
            s = z3.Solver()
            for c in self.pc:
                s.add(c)
            s.add(z3.Not(e) if not isinstance(e, bool) else z3.BoolVal(not e))
            smt2 = s.to_smt2()
        if not isinstance(e, bool) and self.arith_proof(e, 1000):
            v, m = 'yes', None
        else:
            v, m = self.valid(e)
            if v == 'unknown' and not isinstance(e, bool) and self.arith_proof(e, 8000):
                v, m = 'yes', None
        st = {'yes': 'proved', 'no': 'refuted', 'unknown': 'unknown'}[v]
        if callable(info):
            info = '' if st == 'proved' else info()
        self.sink.append(Obligation(name, st, m if st == 'refuted' else None, info, smt2,
                                    list(self.log[-30:])))
        if isinstance(e, bool):
            if not e:
                raise PathEnd('obligation false')
        elif st == 'proved':
            self.pc.append(e)
        else:
            self.pc.append(e)
        return st


_STR = {}


def _has_str(e):
    k = e.get_id()
    r = _STR.get(k)
    if r is not None and r[0].eq(e):
        return r[1]
    if z3.is_string(e) or z3.is_seq(e) or (z3.is_app(e) and e.decl().kind() in (z3.Z3_OP_SEQ_IN_RE,)):
        v = True
    else:
        v = any(_has_str(c) for c in e.children())
    if len(_STR) > 200000:
        _STR.clear()
    _STR[k] = (e, v)
    return v


def explore(run, stats, sink, keep_smt=False, limits=Limits):
    """Depth-first enumeration of all feasible paths by re-execution."""
    trace = []
    n = 0
    while True:
        ctx = Ctx(trace, stats, sink, keep_smt, limits)
        try:
            run(ctx)
        except PathEnd:
            pass
        n += 1
        stats.paths += 1
        if n > limits.max_paths:
            raise Unsupported(f'more than {limits.max_paths} paths')
        trace = ctx.trace[:ctx.pos]
        while trace and not trace[-1].alts:
            trace.pop()
        if not trace:
            return n
        d = trace[-1]
        d.choice = d.alts.pop(0)
