"""Parameter types of contracts: symbolic value, random native value, value from a solver model."""
from __future__ import annotations
import random
from fractions import Fraction
import z3
from . import strings as S
from .values import *


class NoModel(Exception):
    pass


class T:
    def sym(self, it, name):
        raise NotImplementedError

    def gen(self, rng, h):
        raise NotImplementedError

    def from_model(self, m, v):
        raise NoModel()

    def dup(self, v):
        """a fresh native copy for each run (mutable arguments)"""
        return v


class Hints:
    def __init__(self, chars='', ints=(), strs=()):
        self.chars = list(chars) or list('ab')
        self.ints = list(ints) or [0, 1, 2]
        self.strs = list(strs)


class Int(T):
    def __init__(self, lo=None, hi=None, samples=()):
        self.lo, self.hi, self.samples = lo, hi, samples

    def sym(self, it, name):
        e = z3.Int(name)
        if self.lo is not None:
            it.ctx.assume(e >= self.lo)
        if self.hi is not None:
            it.ctx.assume(e <= self.hi)
        return Sym('int', e)

    def gen(self, rng, h):
        for _ in range(20):
            r = rng.random()
            if self.samples and r < 0.3:
                v = rng.choice(self.samples)
            elif r < 0.55:
                v = rng.choice(h.ints) + rng.choice((-1, 0, 0, 1))
            elif self.lo is not None and self.hi is not None:
                v = rng.randint(self.lo, self.hi)
            elif r < 0.8:
                v = (self.lo or 0) + rng.randint(0, 12) if self.lo is not None else rng.randint(-12, 12)
            else:
                v = (self.lo or 0) + rng.randint(0, 400) if self.lo is not None else rng.randint(-400, 400)
            if (self.lo is None or v >= self.lo) and (self.hi is None or v <= self.hi):
                return v
        return self.lo if self.lo is not None else self.hi if self.hi is not None else 0

    def from_model(self, m, v):
        r = m.eval(v.e, model_completion=True)
        return r.as_long()


class Real(T):
    """Exact rational. native: opFrac-style number (float when dyadic, else Fraction)."""
    def __init__(self, lo=None, hi=None, strict=False, samples=(), dens=(1, 2, 4, 8, 16, 3, 6, 12, 5, 7, 32, 64, 24)):
        self.lo, self.hi, self.strict, self.samples, self.dens = lo, hi, strict, samples, dens

    def sym(self, it, name):
        e = z3.Real(name)
        if self.lo is not None:
            it.ctx.assume(e > frac_to_z3(self.lo) if self.strict else e >= frac_to_z3(self.lo))
        if self.hi is not None:
            it.ctx.assume(e <= frac_to_z3(self.hi))
        return Sym('real', e)

    def native(self, f):
        from music21.common import opFrac
        return opFrac(f)

    def ok(self, v):
        if self.lo is not None and (v <= self.lo if self.strict else v < self.lo):
            return False
        return self.hi is None or v <= self.hi

    def gen(self, rng, h):
        for _ in range(40):
            if self.samples and rng.random() < 0.4:
                v = Fraction(rng.choice(self.samples))
            else:
                d = rng.choice(self.dens)
                v = Fraction(rng.choice((rng.randint(-3, 40), rng.randint(0, 400))), d)
            if self.ok(v):
                return self.native(v)
        return self.native(Fraction(self.lo or 0) + 1)

    def from_model(self, m, v):
        r = m.eval(v.e, model_completion=True)
        if z3.is_rational_value(r):
            return self.native(Fraction(r.numerator_as_long(), r.denominator_as_long()))
        raise NoModel()


class Bool(T):
    def sym(self, it, name):
        return Sym('bool', z3.Bool(name))

    def gen(self, rng, h):
        return rng.random() < 0.5

    def from_model(self, m, v):
        return z3.is_true(m.eval(v.e, model_completion=True))


class Str(T):
    def __init__(self, excl=None, only=None, nonempty=False, alpha='', words=(), maxlen=8):
        self.excl = frozenset(excl) if excl else None
        self.only = frozenset(only) if only is not None else None
        self.nonempty = nonempty
        self.alpha = alpha
        self.words = list(words)
        self.maxlen = maxlen

    def sym(self, it, name):
        c = it.ctx
        if it.opts.get('force_unroll'):
            # bounded stand-in: explicit characters, at most 4
            lo = 1 if self.nonempty else 0
            n = c.choose([True] * (5 - lo)) + lo
            ps = []
            for i in range(n):
                x = z3.Int(f'{name}.{i}')
                c.assume(z3.And(x >= 0, x <= 0x2FFFF))
                if self.only is not None:
                    c.assume(z3.Or(*[x == ord(k) for k in sorted(self.only)]))
                for k in sorted(self.excl or ()):
                    c.assume(x != ord(k))
                ps.append(Part('chr', e=x))
            c.memo['bounded'] = 'text of at most 4 characters'
            return S.mk(ps)
        e = z3.String(name)
        if self.nonempty:
            c.assume(z3.Length(e) > 0)
        for ch in sorted(self.excl or ()):
            if len(self.excl) > 8 and not (ch.isprintable() and ch < '\x7f' or ch in '\t\n'):
                continue            # known to the rope layer only; assuming less is sound
            c.assume(z3.Not(z3.Contains(e, z3.StringVal(ch))))
        if self.only is not None:
            r = [z3.Re(x) for x in sorted(self.only)]
            c.assume(z3.InRe(e, z3.Star(z3.Union(*r) if len(r) > 1 else r[0])))
        return Sym('str', e, parts=[Part('opq', e=e, excl=self.excl, only=self.only, nonempty=self.nonempty)],
                   seqkey=name)

    def ok(self, s):
        if self.nonempty and not s:
            return False
        if self.excl and any(c in self.excl for c in s):
            return False
        return self.only is None or all(c in self.only for c in s)

    def gen(self, rng, h):
        chars = list(self.alpha) or h.chars
        if self.only is not None:
            chars = sorted(self.only)
        for _ in range(60):
            r = rng.random()
            if self.words and r < 0.5:
                s = rng.choice(self.words)
                if rng.random() < 0.3:
                    s = s + ''.join(rng.choice(chars) for _ in range(rng.randint(0, 3)))
            elif h.strs and r < 0.6:
                s = rng.choice(h.strs)
            else:
                pool = chars if rng.random() < 0.7 else chars + h.chars
                s = ''.join(rng.choice(pool) for _ in range(rng.randint(0, self.maxlen)))
            if self.excl:
                s = ''.join(c for c in s if c not in self.excl)
            if self.ok(s):
                return s
        return 'x' if self.nonempty else ''

    def from_model(self, m, v):
        if isinstance(v, str):
            return v
        r = m.eval(S.zstr(v), model_completion=True)
        if z3.is_string_value(r):
            s = r.as_string()
            import re as _re
            s = _re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda k: chr(int(k.group(1), 16)), s)
            if v.k == 'str' and v.seqkey and m[S.chr_fn(v.seqkey)] is not None and len(s) < 200:
                # characters the proof looked at one by one
                f = S.chr_fn(v.seqkey)
                t = ''.join(chr(m.eval(f(z3.IntVal(i)), model_completion=True).as_long()) for i in range(len(s)))
                if self.ok(t):
                    return t
            return s
        raise NoModel()


class Char(T):
    def __init__(self, of=None):
        self.of = of

    def sym(self, it, name):
        e = z3.Int(name)
        it.ctx.assume(z3.And(e >= 0, e <= 0x10FFFF))
        if self.of is not None:
            it.ctx.assume(z3.Or(*[e == ord(c) for c in self.of]))
        return Sym('char', e)

    def gen(self, rng, h):
        return rng.choice(list(self.of) if self.of else h.chars)

    def from_model(self, m, v):
        return chr(m.eval(v.e, model_completion=True).as_long())


class OneOf(T):
    """A finite domain, split exhaustively."""
    def __init__(self, *vals):
        self.vals = list(vals)

    def sym(self, it, name):
        v = self.vals[it.ctx.choose([True] * len(self.vals))]
        return from_native(v) if type(v) in (list, dict, set) else v

    def gen(self, rng, h):
        return rng.choice(self.vals)

    def from_model(self, m, v):
        return to_native(v)


class Opt(T):
    def __init__(self, t):
        self.t = t

    def sym(self, it, name):
        if it.ctx.choose([True, True]) == 0:
            return None
        return self.t.sym(it, name)

    def gen(self, rng, h):
        return None if rng.random() < 0.25 else self.t.gen(rng, h)

    def from_model(self, m, v):
        return None if v is None else self.t.from_model(m, v)

    def dup(self, v):
        return None if v is None else self.t.dup(v)


class Either(T):
    def __init__(self, *ts):
        self.ts = ts

    def sym(self, it, name):
        i = it.ctx.choose([True] * len(self.ts))
        v = self.ts[i].sym(it, f'{name}.{i}')
        return v

    def gen(self, rng, h):
        return rng.choice(self.ts).gen(rng, h)

    def from_model(self, m, v):
        for t in self.ts:
            try:
                return t.from_model(m, v)
            except Exception:
                continue
        raise NoModel()


class Tup(T):
    def __init__(self, *ts):
        self.ts = ts

    def sym(self, it, name):
        return tuple(t.sym(it, f'{name}.{i}') for i, t in enumerate(self.ts))

    def gen(self, rng, h):
        return tuple(t.gen(rng, h) for t in self.ts)

    def from_model(self, m, v):
        return tuple(t.from_model(m, x) for t, x in zip(self.ts, v))


class ListOf(T):
    """Unbounded list of scalars (symbolic length); sequence key = parameter name."""
    def __init__(self, t, maxlen=6, minlen=0, exact=None, upto=None):
        self.t, self.maxlen, self.minlen, self.exact, self.upto = t, maxlen, minlen, exact, upto

    def sym(self, it, name):
        if self.exact is not None:
            return VList([self.t.sym(it, f'{name}.{i}') for i in range(self.exact)])
        if self.upto is None and it.opts.get('force_unroll'):
            it.ctx.memo['bounded'] = 'lists of at most 3 elements'
            n = it.ctx.choose([True] * 4)
            if n < self.minlen:
                raise PathEnd('length')
            return VList([self.t.sym(it, f'{name}.{i}') for i in range(n)])
        if self.upto is not None:
            n = it.ctx.choose([True] * (self.upto - self.minlen + 1)) + self.minlen
            return VList([self.t.sym(it, f'{name}.{i}') for i in range(n)])
        n = z3.Int(name + '.len')
        it.ctx.assume(n >= self.minlen)
        t = self.t
        kind = {Int: 'int', Bool: 'bool', Real: 'real', Str: 'str'}[type(t)]
        from .loops import SORTS
        f = z3.Function('elem<%s>' % name, z3.IntSort(), SORTS[kind])

        def mk(it2, idx):
            e = f(idx)
            if isinstance(t, Int):
                if t.lo is not None:
                    it2.ctx.assume(e >= t.lo)
                if t.hi is not None:
                    it2.ctx.assume(e <= t.hi)
            return Sym(kind, e, seqkey=e.sexpr() if kind == 'str' else None)
        return SymList(name, n, mk, seqkey=name)

    def gen(self, rng, h):
        if self.exact is not None:
            n = self.exact
        elif self.upto is not None:
            n = rng.randint(self.minlen, self.upto)
        else:
            n = rng.randint(self.minlen, self.maxlen)
        return [self.t.gen(rng, h) for _ in range(n)]

    def from_model(self, m, v):
        if isinstance(v, VList):
            return [self.t.from_model(m, x) for x in v.items]
        n = m.eval(v.n, model_completion=True).as_long()
        if n > 50:
            raise NoModel()
        kind = {Int: 'int', Bool: 'bool', Real: 'real', Str: 'str'}[type(self.t)]
        from .loops import SORTS
        f = z3.Function('elem<%s>' % v.name, z3.IntSort(), SORTS[kind])
        return [self.t.from_model(m, Sym(kind, f(z3.IntVal(i)))) for i in range(n)]

    def dup(self, v):
        return list(v)


class Const(T):
    def __init__(self, v):
        self.v = v

    def sym(self, it, name):
        return from_native(self.v) if type(self.v) in (list, dict, set) else self.v

    def gen(self, rng, h):
        return self.v

    def from_model(self, m, v):
        return self.v


class Fn(T):
    """Custom type from three functions."""
    def __init__(self, sym, gen, model=None, dup=None):
        self._s, self._g, self._m, self._d = sym, gen, model, dup

    def sym(self, it, name):
        return self._s(it, name)

    def gen(self, rng, h):
        return self._g(rng, h)

    def from_model(self, m, v):
        if self._m is None:
            raise NoModel()
        return self._m(m, v)

    def dup(self, v):
        return self._d(v) if self._d else v
