"""AST interpreter over symbolic values (one path at a time)."""
from __future__ import annotations
import ast
import builtins
import copy
import dataclasses
import enum
import functools
import importlib
import inspect
import math
import operator
import re
import sys
import types
from fractions import Fraction
import z3
from music21.base import Music21Object
from . import strings as S
from .loops import Fold
from .values import (Sym, VObj, VList, VDict, VSet, SymMap, SymList, LazySplit, LazyLen, AttrDict, IterSpec,
                     VIter, BoundMethod, BuiltinMethod, LocalFn, SuperProxy, RegexMatch, UNDEF,
                     Unsupported, PathEnd, PyRaise, Part, is_symbolic, to_native, from_native,
                     frac_to_z3)

POW2 = z3.Function('pow2', z3.IntSort(), z3.IntSort())
GCD = z3.Function('gcd', z3.IntSort(), z3.IntSort(), z3.IntSort())


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Frame:
    __slots__ = ('env', 'globs', 'closure', 'qual', 'cls', 'fn', 'parent', 'merge', 'nonlocals', 'file')

    def __init__(self, globs, qual, cls=None, parent=None, merge=False, file=''):
        self.env = {}
        self.globs = globs
        self.closure = {}
        self.qual = qual
        self.cls = cls
        self.parent = parent
        self.merge = merge
        self.nonlocals = set()
        self.file = file


# ------------------------------------------------------------------ source access
_src_cache = {}


def _file_index(path):
    if path not in _src_cache:
        with open(path, encoding='utf-8') as f:
            tree = ast.parse(f.read(), path)
        idx = {}
        for node in ast.walk(tree):
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                first = node.lineno
                if getattr(node, 'decorator_list', None):
                    first = min(first, min(d.lineno for d in node.decorator_list))
                nm = getattr(node, 'name', '<lambda>')
                idx.setdefault((first, nm), []).append(node)
        _src_cache[path] = (tree, idx)
    return _src_cache[path]


def fn_node(fn):
    code = fn.__code__
    try:
        _, idx = _file_index(code.co_filename)
    except (OSError, SyntaxError):
        return None
    c = idx.get((code.co_firstlineno, code.co_name))
    if c and len(c) > 1 and code.co_name == '<lambda>':
        pos = {(a, b, x, y) for a, b, x, y in code.co_positions()}
        c = [n for n in c if (n.body.lineno, n.body.end_lineno, n.body.col_offset, n.body.end_col_offset) in pos]
    if not c or len(c) != 1:
        return None
    return c[0]


INTERP_PREFIXES = ('converter21', 'specs', 'pyvc_spec')
def from_m21(x):
    return any(c.__module__.startswith('music21.') for c in type(x).__mro__)


# modules of music21 whose real source is interpreted too, so that their objects may hold symbolic values
INTERP_MODULES = ('music21.metadata.primitives',)


def interp_module(mod):
    return mod.split('.')[0] in INTERP_PREFIXES or mod in INTERP_MODULES


def interpretable(fn):
    mod = getattr(fn, '__module__', '') or ''
    return isinstance(fn, types.FunctionType) and interp_module(mod) \
        and not getattr(fn, '_native', False) and fn_node(fn) is not None


def int_atoms(e):
    """integer terms converted to reals inside e"""
    out, todo, seen = [], [e], set()
    while todo and len(seen) < 200:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_to_real(t) and not z3.is_int_value(t.arg(0)):
            out.append(t.arg(0))
            continue
        todo.extend(t.children())
    return out[:4]


class Interp:
    def __init__(self, ctx, registry=None, loops=None, target=None, folds=(), opts=None):
        self.ctx = ctx
        self.registry = registry          # contracts: fn -> Contract
        self.loops = loops                # Houdini store
        self.target = target              # function under verification (its body is used)
        self.folds = list(folds)
        self.opts = opts or {}
        self.depth = 0
        self.statics = {}                 # (owner, attr) -> engine value replacing mutable class state
        self.caches = {}
        self.live = {}                    # id(native obj) -> engine object (copied on write)
        self.called = set()               # functions interpreted
        self.contracts_used = set()
        self.inexact = False
        self.mutlog = []
        self.probing = 0
        self.fold_instances = []

    # ================================================================ scalars
    def sym_of(self, v):
        """kind of a scalar value or None"""
        if isinstance(v, Sym):
            return v.k
        if isinstance(v, bool):
            return 'bool'
        if isinstance(v, int) and not isinstance(v, enum.Enum):
            return 'int'
        if isinstance(v, (float, Fraction)):
            return 'real'
        if isinstance(v, str):
            return 'str'
        return None

    def znum(self, v):
        """numeric value -> z3 arithmetic expr"""
        if isinstance(v, Sym):
            if v.k == 'bool':
                return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
            if v.k in ('int', 'real'):
                return v.e
            raise Unsupported('number expected')
        if isinstance(v, bool):
            return z3.IntVal(int(v))
        if isinstance(v, int):
            return z3.IntVal(int(v))
        if isinstance(v, float):
            if math.isinf(v) or math.isnan(v):
                raise Unsupported('inf/nan')
            return frac_to_z3(v)
        if isinstance(v, Fraction):
            return frac_to_z3(v)
        raise Unsupported(f'number expected, got {type(v).__name__}')

    def znum2(self, a, b):
        x, y = self.znum(a), self.znum(b)
        if z3.is_int(x) != z3.is_int(y):
            if z3.is_int(x):
                x = z3.ToReal(x)
            else:
                y = z3.ToReal(y)
        return x, y

    def zbool(self, v):
        """truth value as bool or z3 Bool"""
        if isinstance(v, bool):
            return v
        if isinstance(v, z3.BoolRef):
            return v
        if isinstance(v, Sym):
            if v.k == 'bool':
                return v.e
            if v.k in ('int', 'real'):
                return v.e != 0
            if v.k == 'char':
                return True
            n = 0
            for p in S.parts_of(v):
                if p.kind in ('lit', 'chr', 'int') or (p.kind == 'opq' and p.nonempty):
                    return True
            conds = []
            for p in S.parts_of(v):
                conds.append(p.e > 0 if p.kind == 'rep' else z3.Length(p.e) > 0)
            return z3.Or(*conds) if len(conds) > 1 else conds[0]
        if isinstance(v, VList):
            return bool(v.items)
        if isinstance(v, VDict):
            return bool(v.entries)
        if isinstance(v, VSet):
            return bool(v.items)
        if isinstance(v, SymList):
            return v.n > 0
        if isinstance(v, SymMap):
            return self.symmap_nonempty(v)
        if isinstance(v, LazySplit):
            return v.rest is not None or bool(v.done)
        if isinstance(v, LazyLen):
            return True
        if isinstance(v, RegexMatch):
            return True
        if isinstance(v, VObj):
            f = self.class_attr(v.cls, '__bool__')
            if f is not None:
                return self.zbool(self.call(BoundMethod(f, v), [], {}))
            f = self.class_attr(v.cls, '__len__')
            if f is not None:
                return self.zbool(self.call(BoundMethod(f, v), [], {}))
            return True
        if isinstance(v, (BoundMethod, LocalFn, BuiltinMethod)):
            return True
        if v is UNDEF:
            raise Unsupported('possibly undefined variable')
        return bool(v)

    def truth(self, v):
        return self.ctx.branch(self.zbool(v))

    def mkbool(self, e):
        if isinstance(e, bool):
            return e
        e = z3.simplify(e) if self.opts.get('simplify') else e
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return Sym('bool', e)

    def note_literal(self, x, lit):
        """x may equal lit: tell every fold over x what it evaluates to in that case"""
        m = self.ctx.memo.setdefault('literals', {}).setdefault(x.seqkey, [])
        if not any(l == lit for _, l in m):
            m.append((x.e, lit))
            for fold, n in self.ctx.memo.get(('touched', x.seqkey), ()):
                fold.literal(self, x.seqkey, n, x.e, lit)

    def eq(self, a, b):
        """a == b -> bool | z3 Bool"""
        if a is b and not isinstance(a, float):
            return True
        if isinstance(a, LazyLen) or isinstance(b, LazyLen):
            return self.lazylen_cmp('==', a, b)
        ka, kb = self.sym_of(a), self.sym_of(b)
        if ka and kb:
            sa, sb = ka in ('str', 'char'), kb in ('str', 'char')
            if sa != sb:
                return False
            if sa:
                for x, y in ((a, b), (b, a)):
                    if isinstance(x, Sym) and x.seqkey and isinstance(y, str) and len(y) < 40:
                        self.note_literal(x, y)
                return S.eq(self.ctx, a, b)
            if not isinstance(a, Sym) and not isinstance(b, Sym):
                return a == b
            if ka == 'bool' and kb == 'bool':
                x = a.e if isinstance(a, Sym) else z3.BoolVal(a)
                y = b.e if isinstance(b, Sym) else z3.BoolVal(b)
                return x == y
            x, y = self.znum2(a, b)
            return x == y
        if ka or kb:
            o = b if ka else a
            if o is None or isinstance(o, (tuple, VList, VDict, VSet, SymList, SymMap, VObj, RegexMatch)):
                if isinstance(o, VObj) and self.class_attr(o.cls, '__eq__') not in (None, object.__eq__):
                    return self.zbool(self.call(self.getattr(o, '__eq__'), [b if ka is None else a], {}))
                return False
            if not isinstance(a, Sym) and not isinstance(b, Sym):
                return a == b
            return False
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return self.zand([self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, VList) and isinstance(b, VList):
            if len(a.items) != len(b.items):
                return False
            return self.zand([self.eq(x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, VSet) and isinstance(b, VSet):
            if not is_symbolic(a) and not is_symbolic(b):
                return to_native(a) == to_native(b)
            raise Unsupported('set equality')
        if isinstance(a, VDict) and isinstance(b, VDict):
            if len(a.entries) != len(b.entries):
                return False
            cs = []
            for k, v in a.entries:
                i = self.dict_find(b, k)
                if i is None:
                    return False
                cs.append(self.eq(v, b.entries[i][1]))
            return self.zand(cs)
        if isinstance(a, VList) and isinstance(b, list):
            return self.eq(a, from_native(b))
        if isinstance(b, VList) and isinstance(a, list):
            return self.eq(from_native(a), b)
        if isinstance(a, VDict) and isinstance(b, dict):
            return self.eq(a, from_native(b))
        if isinstance(b, VDict) and isinstance(a, dict):
            return self.eq(from_native(a), b)
        if isinstance(a, SymList) or isinstance(b, SymList):
            return self.symlist_eq(a, b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, LazySplit):
                if isinstance(y, LazySplit):
                    self.force_split(y)
                    y = VList(y.done)
                if isinstance(y, list):
                    y = from_native(y)
                if not isinstance(y, VList):
                    return False
                n = len(y.items)
                while len(x.done) < n and S.next_piece(self.ctx, x):
                    pass
                if x.rest is not None or len(x.done) != n:
                    return False
                return self.zand([self.eq(p, q) for p, q in zip(x.done, y.items)])
            if isinstance(x, AttrDict):
                raise Unsupported('comparison of __dict__')
        for x, y in ((a, b), (b, a)):
            if isinstance(x, VObj):
                f = self.class_attr(x.cls, '__eq__')
                if f is not None and isinstance(f, types.FunctionType):
                    if interpretable(f):
                        return self.zbool(self.call(BoundMethod(f, x), [y], {}))
                    if dataclasses.is_dataclass(x.cls):
                        if not isinstance(y, VObj) or y.cls is not x.cls:
                            return False
                        return self.zand([self.eq(x.d[f2.name], y.d[f2.name])
                                          for f2 in dataclasses.fields(x.cls)])
                    raise Unsupported('__eq__ of ' + x.cls.__name__)
                return False
        if is_symbolic(a) or is_symbolic(b):
            return False
        return bool(to_native(a) == to_native(b))

    def symlist_eq(self, a, b):
        if isinstance(a, SymList) and isinstance(b, SymList):
            raise Unsupported('equality of unbounded lists')
        sl, o = (a, b) if isinstance(a, SymList) else (b, a)
        if isinstance(o, list):
            o = VList(o)
        if isinstance(o, VList):
            if not self.ctx.branch(sl.n == len(o.items)):
                return False
            return self.zand([self.eq(self.symlist_get(sl, z3.IntVal(i)), x) for i, x in enumerate(o.items)])
        return False

    def zand(self, cs):
        out = []
        for c in cs:
            if c is True:
                continue
            if c is False:
                return False
            out.append(c)
        if not out:
            return True
        return z3.And(*out) if len(out) > 1 else out[0]

    def zor(self, cs):
        out = []
        for c in cs:
            if c is False:
                continue
            if c is True:
                return True
            out.append(c)
        if not out:
            return False
        return z3.Or(*out) if len(out) > 1 else out[0]

    def znot(self, c):
        return (not c) if isinstance(c, bool) else z3.Not(c)

    def is_(self, a, b):
        if a is b:
            return True
        if isinstance(a, Sym) or isinstance(b, Sym):
            o = b if isinstance(a, Sym) else a
            s = a if isinstance(a, Sym) else b
            if o is None or isinstance(o, (VObj, VList, VDict, type, enum.Enum)):
                return False
            if isinstance(o, bool) and s.k == 'bool':
                return self.eq(a, b)
            if isinstance(o, bool):
                return False
            raise Unsupported('identity of symbolic scalars')
        if isinstance(a, (VObj, VList, VDict, VSet, SymMap, SymList)) or \
                isinstance(b, (VObj, VList, VDict, VSet, SymMap, SymList)):
            return False
        if type(a) in (int, str, float, Fraction) and type(a) is type(b):
            return a == b
        return False

    # ================================================================ comparison
    def compare(self, op, a, b):
        """-> value (bool or Sym bool)"""
        if op in ('==', '!='):
            e = self.eq(a, b)
            return self.mkbool(e if op == '==' else self.znot(e))
        if op == 'is':
            return self.mkbool(self.is_(a, b))
        if op == 'is not':
            return self.mkbool(self.znot(self.is_(a, b)))
        if op in ('in', 'not in'):
            e = self.contains(b, a)
            return self.mkbool(e if op == 'in' else self.znot(e))
        # orderings
        if isinstance(a, LazyLen) or isinstance(b, LazyLen):
            return self.lazylen_cmp(op, a, b)
        ka, kb = self.sym_of(a), self.sym_of(b)
        if isinstance(a, Sym) or isinstance(b, Sym):
            if ka is None or kb is None:
                if (a is None or b is None) or isinstance(a, (tuple, VList)) or isinstance(b, (tuple, VList)):
                    raise PyRaise(TypeError(f"'{op}' not supported"))
                raise Unsupported('ordering')
            if (ka in ('str', 'char')) != (kb in ('str', 'char')):
                raise PyRaise(TypeError(f"'{op}' not supported between str and number"))
            if ka in ('str', 'char'):
                def code(v):
                    if isinstance(v, Sym) and v.k == 'char':
                        return v.e
                    if isinstance(v, str) and len(v) == 1:
                        return z3.IntVal(ord(v))
                    return None
                x, y = code(a), code(b)
                if x is not None and y is not None:
                    return self.mkbool({'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op])
                x, y = S.zstr(a), S.zstr(b)
                return self.mkbool({'<': x < y, '<=': x <= y, '>': y < x, '>=': y <= x}[op])
            x, y = self.znum2(a, b)
            return self.mkbool({'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op])
        if isinstance(a, VObj) or isinstance(b, VObj):
            names = {'<': ('__lt__', '__gt__'), '<=': ('__le__', '__ge__'), '>': ('__gt__', '__lt__'),
                     '>=': ('__ge__', '__le__')}[op]
            for o, nm, other in ((a, names[0], b), (b, names[1], a)):
                if isinstance(o, VObj):
                    f = self.class_attr(o.cls, nm)
                    if isinstance(f, types.FunctionType):
                        return self.call(BoundMethod(f, o), [other], {})
            raise PyRaise(TypeError('ordering of objects'))
        if isinstance(a, (tuple, VList)) and isinstance(b, (tuple, VList)) and (is_symbolic(a) or is_symbolic(b)):
            xs = a.items if isinstance(a, VList) else a
            ys = b.items if isinstance(b, VList) else b
            for x, y in zip(xs, ys):
                if self.ctx.branch(self.eq(x, y)):
                    continue
                return self.compare(op, x, y)
            return {'<': len(xs) < len(ys), '<=': len(xs) <= len(ys), '>': len(xs) > len(ys),
                    '>=': len(xs) >= len(ys)}[op]
        if is_symbolic(a) or is_symbolic(b):
            raise PyRaise(TypeError('ordering'))
        f = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}[op]
        try:
            return f(to_native(a), to_native(b))
        except Exception as e:
            raise PyRaise(e)

    def lazylen_cmp(self, op, a, b):
        flip = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}
        if isinstance(b, LazyLen):
            a, b, op = b, a, flip[op]
        if not isinstance(b, int):
            raise Unsupported('length of an unbounded split')
        ls = a.ls
        while len(ls.done) <= b:
            if not S.next_piece(self.ctx, ls):
                break
        n = len(ls.done)
        more = ls.rest is not None
        if not more:
            return {'==': n == b, '!=': n != b, '<': n < b, '<=': n <= b, '>': n > b, '>=': n >= b}[op]
        # n > b for sure
        return {'==': False, '!=': True, '<': False, '<=': False, '>': True, '>=': True}[op]

    def contains(self, c, x):
        """x in c -> bool | z3"""
        if S.is_str(c):
            if not S.is_str(x):
                raise PyRaise(TypeError('in <string> requires string'))
            return S.contains(self.ctx, x, c)
        if isinstance(c, (VDict, SymMap)):
            return self.dict_has(c, x)
        if isinstance(c, VList):
            return self.zor([self.eq(i, x) for i in c.items])
        if isinstance(c, VSet):
            return self.zor([self.key_eq(i, x) for i in c.items])
        if isinstance(c, tuple):
            return self.zor([self.eq(i, x) for i in c])
        if isinstance(c, range) and isinstance(x, Sym):
            if c.step != 1:
                raise Unsupported('range step')
            e = self.znum(x)
            return z3.And(e >= c.start, e < c.stop)
        if isinstance(c, (dict, set, frozenset, list)) or isinstance(c, types.MappingProxyType):
            c2 = self.live.get(id(c))
            if c2 is not None:
                return self.contains(c2, x)
            if isinstance(x, Sym) or is_symbolic(x):
                return self.zor([self.eq(x, k) for k in c])
            try:
                return to_native(x) in c
            except Exception as e:
                raise PyRaise(e)
        if isinstance(c, type({}.keys())) or isinstance(c, type({}.values())):
            return self.zor([self.eq(x, k) for k in c])
        if isinstance(c, LazySplit):
            self.force_split(c)
            return self.zor([self.eq(x, k) for k in c.done])
        if isinstance(c, AttrDict):
            if is_symbolic(x) or c.o.lazy is not None:
                raise Unsupported('symbolic attribute name')
            return x in c.o.d
        if isinstance(c, VObj):
            f = self.class_attr(c.cls, '__contains__')
            if f is not None:
                return self.zbool(self.call(BoundMethod(f, c), [x], {}))
        if isinstance(c, SymList):
            raise Unsupported('membership in an unbounded list')
        if is_symbolic(c) or is_symbolic(x):
            raise Unsupported(f'membership in {type(c).__name__}')
        try:
            return to_native(x) in c
        except Exception as e:
            raise PyRaise(e)

    def force_split(self, ls, limit=None):
        limit = limit or self.opts.get('split_bound')
        if limit is None:
            while ls.rest is not None and isinstance(ls.sep, str) and (len(ls.sep) == 1 and all(
                    p.kind in ('lit', 'chr') or S.charset_has(p, ls.sep) is False for p in S.parts_of(ls.rest))
                    or S._literal_only(ls.sep, S.parts_of(ls.rest)) is not None):
                S.next_piece(self.ctx, ls)
            if ls.rest is None:
                return
            raise Unsupported('iteration over an unbounded split')
        while S.next_piece(self.ctx, ls):
            if len(ls.done) > limit:
                self.inexact = True
                self.ctx.memo['bounded'] = f'split into at most {limit} pieces'
                raise PathEnd('split bound')

    # ================================================================ dict
    def key_eq(self, a, b):
        """are a and b the same key of a dict or set: for objects of music21 that is their hash, too"""
        if from_m21(a) and from_m21(b):
            return a is b or (hash(a) == hash(b) and a == b)
        return self.eq(a, b)

    def dict_find(self, d, k):
        """index of key k in a VDict (branching) or None"""
        for i, (kk, _) in enumerate(d.entries):
            if self.ctx.branch(self.key_eq(kk, k)):
                return i
        return None

    def symmap_entry(self, m, k, need=True):
        for ent in m.entries:
            if self.ctx.branch(self.eq(ent[0], k)):
                return ent
        b = self.ctx.fresh_bool(m.name + '.has')
        present = self.ctx.branch(b)
        if m.nonempty is not None:
            if present:
                self.ctx.assume(m.nonempty)
        ent = [k, present, None, False, b]
        m.entries.append(ent)
        if present:
            ent[2] = m.mk(self, k)
        return ent

    def symmap_nonempty(self, m):
        if m.dirty:
            if any(e[1] for e in m.entries):
                return True
            raise Unsupported('emptiness of a modified unbounded map')
        if any(e[1] for e in m.entries):
            return True
        if m.nonempty is None:
            m.nonempty = self.ctx.fresh_bool(m.name + '.nonempty')
        return m.nonempty

    def dict_has(self, d, k):
        if isinstance(d, SymMap):
            return self.symmap_entry(d, k)[1]
        return self.dict_find(d, k) is not None

    def dict_get(self, d, k, *default):
        if isinstance(d, SymMap):
            e = self.symmap_entry(d, k)
            if e[1]:
                return e[2]
        else:
            i = self.dict_find(d, k)
            if i is not None:
                return d.entries[i][1]
        if default:
            return default[0]
        raise PyRaise(KeyError(k))

    def dict_set(self, d, k, v):
        self.mutlog.append(d)
        if isinstance(d, SymMap):
            e = self.symmap_entry(d, k)
            e[1], e[2], e[3] = True, v, True
            d.dirty = True
            return
        i = self.dict_find(d, k)
        if i is None:
            d.entries.append([k, v])
        else:
            d.entries[i][1] = v

    def dict_del(self, d, k, strict=True):
        self.mutlog.append(d)
        if isinstance(d, SymMap):
            e = self.symmap_entry(d, k)
            if not e[1]:
                if strict:
                    raise PyRaise(KeyError(k))
                return None
            v = e[2]
            e[1], e[2], e[3] = False, None, True
            d.dirty = True
            return v
        i = self.dict_find(d, k)
        if i is None:
            if strict:
                raise PyRaise(KeyError(k))
            return None
        return d.entries.pop(i)[1]

    def live_dict_get(self, d, k, *default):
        """lookup in a native dict with a possibly symbolic key"""
        if not is_symbolic(k):
            k2 = to_native(k)
            try:
                if k2 in d:
                    return d[k2]
            except TypeError as e:
                raise PyRaise(e)
            if default:
                return default[0]
            raise PyRaise(KeyError(k2))
        conds = []
        keys = list(d.keys())
        for kk in keys:
            e = self.eq(kk, k)
            conds.append(e)
        none = self.znot(self.zor(conds))
        c = self.ctx.choose([x if x is not True else True for x in conds] + [none])
        if c < len(keys):
            return d[keys[c]]
        if default:
            return default[0]
        raise PyRaise(KeyError(str(k)))

    # ================================================================ lists
    def symlist_get(self, sl, idx):
        for ent in sl.entries:
            if self.ctx.branch(ent[0] == idx):
                return ent[1]
        v = sl.mk(self, idx)
        sl.entries.append([idx, v])
        return v

    def norm_index(self, i, n):
        """symbolic/concrete index into n (int or z3) -> z3 idx or raise IndexError"""
        e = self.znum(i)
        if self.ctx.branch(z3.And(e >= 0, e < n)):
            return e
        if self.ctx.branch(z3.And(e < 0, e >= -n)):
            return z3.simplify(e + n)
        raise PyRaise(IndexError('list index out of range'))

    def getitem(self, o, i):
        if isinstance(i, slice):
            return self.getslice(o, i.start, i.stop, i.step)
        if S.is_str(o):
            return S.index(self.ctx, o, i)
        if isinstance(o, VList):
            return self.seq_index(o.items, i)
        if isinstance(o, tuple):
            return self.seq_index(o, i)
        if isinstance(o, (VDict, SymMap)):
            return self.dict_get(o, i)
        if isinstance(o, SymList):
            if isinstance(i, int) and i >= 0:
                if not self.ctx.branch(sl_gt(o.n, i)):
                    raise PyRaise(IndexError('list index out of range'))
                return self.symlist_get(o, z3.IntVal(i))
            return self.symlist_get(o, self.norm_index(i, o.n))
        if isinstance(o, LazySplit):
            if isinstance(i, Sym):
                raise Unsupported('symbolic index into split')
            if i < 0:
                self.force_split(o)
                return self.seq_index(o.done, i)
            while len(o.done) <= i:
                if not S.next_piece(self.ctx, o):
                    raise PyRaise(IndexError('list index out of range'))
            return o.done[i]
        if isinstance(o, RegexMatch):
            return o.groups[i]
        if isinstance(o, VObj):
            return self.call(self.getattr(o, '__getitem__'), [i], {})
        if isinstance(o, dict) or isinstance(o, types.MappingProxyType):
            c = self.live.get(id(o))
            if c is not None:
                return self.dict_get(c, i)
            return self.live_dict_get(o, i)
        if isinstance(o, (list,)) and isinstance(i, Sym):
            return self.seq_index(o, i)
        if isinstance(o, type) and not is_symbolic(i):
            try:
                return o[i]
            except Exception as e:
                raise PyRaise(e)
        if is_symbolic(o) or is_symbolic(i):
            if o is None:
                raise PyRaise(TypeError("'NoneType' object is not subscriptable"))
            raise Unsupported(f'subscript of {type(o).__name__}')
        try:
            return o[to_native(i)]
        except Exception as e:
            raise PyRaise(e)

    def seq_index(self, items, i):
        n = len(items)
        if isinstance(i, Sym):
            conds = [i.e == j for j in range(-n, n)]
            conds.append(z3.Or(i.e < -n, i.e >= n))
            c = self.ctx.choose(conds)
            if c == 2 * n:
                raise PyRaise(IndexError('list index out of range'))
            return items[range(-n, n)[c]]
        try:
            return items[i]
        except Exception as e:
            raise PyRaise(e)

    def getslice(self, o, a, b, step):
        if S.is_str(o):
            return S.slice_(self.ctx, o, a, b, step)
        if isinstance(o, LazySplit):
            if not isinstance(a, Sym) and b is None and (a or 0) >= 0 and step is None:
                raise Unsupported('slice of an unbounded split')
            self.force_split(o)
            o = VList(o.done)
        if any(isinstance(x, Sym) for x in (a, b, step)):
            seq = o.items if isinstance(o, VList) else o
            if isinstance(seq, (list, tuple)):
                a2, b2 = (self.concretize_index(x, len(seq)) for x in (a, b))
                r = seq[slice(a2, b2, step)]
                return VList(r) if isinstance(o, (VList, list)) else r
            raise Unsupported('symbolic slice')
        if isinstance(o, VList):
            return VList(o.items[a:b:step])
        if isinstance(o, tuple):
            return o[a:b:step]
        if isinstance(o, SymList):
            return self.symlist_slice(o, a, b, step)
        if isinstance(o, VObj):
            return self.call(self.getattr(o, '__getitem__'), [slice(a, b, step)], {})
        try:
            return from_native(to_native(o)[a:b:step])
        except Exception as e:
            raise PyRaise(e)

    def symlist_slice(self, o, a, b, step):
        if step not in (None, 1):
            raise Unsupported('slice step')
        a = a or 0
        if a < 0 or (b is not None and b >= 0):
            raise Unsupported('slice of an unbounded list')
        cut = a - (b or 0)
        n = z3.If(o.n >= cut, o.n - cut, z3.IntVal(0))
        return SymList(f'{o.name}[{a}:{b}]', n, lambda it, i: it.symlist_get(o, z3.simplify(i + a)))

    def concretize_index(self, x, n):
        if x is None or not isinstance(x, Sym):
            return x
        conds = [x.e == j for j in range(-n, n + 1)]
        lo, hi = x.e < -n, x.e > n
        c = self.ctx.choose(conds + [lo, hi])
        if c == len(conds):
            return -n - 1
        if c == len(conds) + 1:
            return n + 1
        return range(-n, n + 1)[c]

    # ================================================================ arithmetic
    def binop(self, op, a, b):
        if not isinstance(a, (Sym, VObj, VList, VDict, VSet, SymList, LazySplit, LazyLen)) and \
                not isinstance(b, (Sym, VObj, VList, VDict, VSet, SymList, LazySplit, LazyLen)) and \
                not is_symbolic(a) and not is_symbolic(b):
            try:
                return self._native_bin(op, a, b)
            except (Unsupported, PyRaise):
                raise
            except Exception as e:
                raise PyRaise(e)
        if op == '+':
            if S.is_str(a) and S.is_str(b):
                return S.concat(a, b)
            if isinstance(a, (VList, list)) and isinstance(b, (VList, list)):
                return VList((a.items if isinstance(a, VList) else [from_native(x) for x in a])
                             + (b.items if isinstance(b, VList) else [from_native(x) for x in b]))
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
        if op == '*':
            if S.is_str(a) and self.sym_of(b) in ('int', 'bool'):
                return S.repeat(self.ctx, a, b)
            if S.is_str(b) and self.sym_of(a) in ('int', 'bool'):
                return S.repeat(self.ctx, b, a)
            if isinstance(a, VList) and isinstance(b, int):
                return VList(a.items * b)
            if isinstance(b, VList) and isinstance(a, int):
                return VList(b.items * a)
        if op == '%' and isinstance(a, str):
            from . import intrinsics
            return intrinsics.percent_format(self, a, b)
        if isinstance(a, VObj) or isinstance(b, VObj):
            nm = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv', '//': 'floordiv', '%': 'mod'}.get(op)
            if nm and isinstance(a, VObj):
                f = self.class_attr(a.cls, f'__{nm}__')
                if isinstance(f, types.FunctionType):
                    return self.call(BoundMethod(f, a), [b], {})
            raise Unsupported('operator on objects')
        if isinstance(a, VSet) or isinstance(b, VSet):
            if not is_symbolic(a) and not is_symbolic(b):
                return from_native(self._native_bin(op, to_native(a), to_native(b)))
            raise Unsupported('set operator')
        ka, kb = self.sym_of(a), self.sym_of(b)
        if ka is None or kb is None or 'str' in (ka, kb) or 'char' in (ka, kb):
            if a is None or b is None or {ka, kb} & {'str', 'char'}:
                raise PyRaise(TypeError(f'unsupported operand type(s) for {op}'))
            raise Unsupported(f'operator {op} on {type(a).__name__},{type(b).__name__}')
        isint = ka in ('int', 'bool') and kb in ('int', 'bool')
        x, y = self.znum2(a, b)
        kind = 'int' if isint else 'real'
        if op == '+':
            return Sym(kind, x + y)
        if op == '-':
            return Sym(kind, x - y)
        if op == '*':
            return Sym(kind, x * y)
        if op == '/':
            if self.ctx.branch(y == 0):
                raise PyRaise(ZeroDivisionError('division by zero'))
            if isint:
                x, y = z3.ToReal(x), z3.ToReal(y)
            return Sym('real', x / y)
        if op in ('//', '%'):
            if self.ctx.branch(y == 0):
                raise PyRaise(ZeroDivisionError('modulo by zero'))
            if isint:
                if not isinstance(b, Sym):
                    if int(b) > 0:
                        return Sym('int', x / y if op == '//' else x % y)
                    q = z3.ToInt(z3.ToReal(x) / z3.ToReal(y))
                    return Sym('int', q if op == '//' else x - y * q)
                if self.ctx.branch(y > 0):
                    return Sym('int', x / y if op == '//' else x % y)
                q = -(x / (-y))          # floor for negative divisor: adjust
                q = z3.If((x % (-y)) == 0, q, q - 1)
                return Sym('int', q if op == '//' else x - y * q)
            q = z3.ToInt(x / y)
            if op == '//':
                return Sym('real', z3.ToReal(q)) if not (isint) else Sym('int', q)
            return Sym('real', x - y * z3.ToReal(q))
        if op == '**':
            if isinstance(a, int) and a == 2 and kb == 'int':
                return self.pow2(b)
            if isinstance(b, int) and 0 <= b <= 6:
                r = Sym(kind, z3.IntVal(1) if kind == 'int' else z3.RealVal(1))
                for _ in range(b):
                    r = self.binop('*', r, a)
                return r
            raise Unsupported('power')
        if op in ('&', '|', '^'):
            if ka == 'bool' and kb == 'bool':
                p, q = self.zbool(a), self.zbool(b)
                p = z3.BoolVal(p) if isinstance(p, bool) else p
                q = z3.BoolVal(q) if isinstance(q, bool) else q
                return Sym('bool', {'&': z3.And(p, q), '|': z3.Or(p, q), '^': z3.Xor(p, q)}[op])
            return self.bitop(op, a, b)
        if op == '<<' and isint:
            if isinstance(a, int) and a == 1:
                return self.pow2(b)
            if isinstance(b, int):
                return Sym('int', x * (2 ** b))
            return Sym('int', x * self.pow2(b).e)
        if op == '>>' and isint:
            if isinstance(b, int):
                return Sym('int', x / (2 ** b))
        raise Unsupported(f'operator {op}')

    def bitop(self, op, a, b):
        # n & (n-1): the power-of-two idiom
        if op == '&' and isinstance(a, Sym) and isinstance(b, Sym):
            for u, v in ((a, b), (b, a)):
                if z3.simplify(v.e - u.e).eq(z3.IntVal(-1)):
                    f = z3.Function('and_pred', z3.IntSort(), z3.IntSort())
                    ispow = z3.Function('is_pow2', z3.IntSort(), z3.BoolSort())
                    self.ctx.assume(z3.Implies(u.e > 0, (f(u.e) == 0) == ispow(u.e)))
                    return Sym('int', f(u.e))
        if op == '&' and isinstance(b, int) and b == 1:
            return Sym('int', a.e % 2)
        if op == '&' and isinstance(a, int) and a == 1:
            return Sym('int', b.e % 2)
        raise Unsupported('bit operation')

    def pow2(self, n):
        if not isinstance(n, Sym):
            return 2 ** n
        e = n.e
        if not self.ctx.branch(e >= 0):
            # 2 ** negative -> 1 / 2**-n (a float in Python)
            p = POW2(-e)
            self.ctx.assume(z3.And(p >= 2))
            self.pow2_facts(-e)
            return Sym('real', 1 / z3.ToReal(p))
        self.pow2_facts(e)
        return Sym('int', POW2(e))

    def pow2_facts(self, e):
        c = self.ctx
        key = ('pow2', str(z3.simplify(e)))
        if key in c.memo:
            return
        c.memo[key] = True
        p = POW2(e)
        c.assume(z3.And(POW2(0) == 1, POW2(1) == 2, p >= 1, POW2(e + 1) == 2 * p,
                        z3.Implies(e >= 1, z3.And(p == 2 * POW2(e - 1), POW2(e - 1) >= 1)),
                        p > e))

    def _native_bin(self, op, a, b):
        f = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv,
             '//': operator.floordiv, '%': operator.mod, '**': operator.pow, '&': operator.and_,
             '|': operator.or_, '^': operator.xor, '<<': operator.lshift, '>>': operator.rshift,
             '@': operator.matmul}[op]
        a, b = to_native(a), to_native(b)
        r = f(a, b)
        return from_native(r) if type(r) in (list, set, dict) else r

    def unary(self, op, v):
        if op == 'not':
            return self.mkbool(self.znot(self.zbool(v)))
        if isinstance(v, Sym):
            if op == '-':
                return Sym('int' if v.k in ('int', 'bool') else 'real', -self.znum(v))
            if op == '+':
                return v
            raise Unsupported('unary ' + op)
        try:
            return {'-': operator.neg, '+': operator.pos, '~': operator.invert}[op](v)
        except Exception as e:
            raise PyRaise(e)

    # ================================================================ attributes
    def class_attr(self, cls, name):
        for c in cls.__mro__:
            if name in c.__dict__:
                v = c.__dict__[name]
                if c is object:
                    return None if name in ('__bool__', '__len__', '__contains__', '__eq__', '__lt__',
                                            '__le__', '__gt__', '__ge__', '__init__') else v
                return v
        return None

    def getattr(self, o, name, *default):
        if isinstance(o, VObj):
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                return AttrDict(o)
            a = None
            for c in o.cls.__mro__:
                if name in c.__dict__:
                    a = c.__dict__[name]
                    break
            if isinstance(a, property):
                return self.call(BoundMethod(a.fget, o), [], {})
            if isinstance(a, functools.cached_property):
                return self.call(BoundMethod(a.func, o), [], {})
            if name in o.d:
                return o.d[name]
            if o.lazy is not None and a is None:
                v = o.lazy(self, name)
                if v is not UNDEF:
                    o.d[name] = v
                    return v
            if a is None:
                if default:
                    return default[0]
                raise PyRaise(AttributeError(f"'{o.cls.__name__}' object has no attribute '{name}'"))
            if isinstance(a, staticmethod):
                return a.__func__
            if isinstance(a, classmethod):
                return BoundMethod(a.__func__, o.cls)
            if isinstance(a, types.FunctionType):
                return BoundMethod(a, o)
            return self.static_value(o.cls, name, a)
        if isinstance(o, SuperProxy):
            mro = (o.obj if isinstance(o.obj, type) else o.obj.cls).__mro__
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if name in c.__dict__:
                    a = c.__dict__[name]
                    if isinstance(a, property):
                        return self.call(BoundMethod(a.fget, o.obj), [], {})
                    if isinstance(a, staticmethod):
                        return a.__func__
                    if isinstance(a, classmethod):
                        return BoundMethod(a.__func__, o.obj if isinstance(o.obj, type) else o.obj.cls)
                    if isinstance(a, types.FunctionType) or callable(a):
                        return BoundMethod(a, o.obj)
                    return a
            raise PyRaise(AttributeError(name))
        if isinstance(o, Sym):
            if o.k in ('int', 'real', 'bool'):
                if name == 'numerator':
                    return self.numden(o)[0]
                if name == 'denominator':
                    return self.numden(o)[1]
                if name in ('real',):
                    return o
            return BuiltinMethod(o, name)
        if isinstance(o, (VList, VDict, VSet, SymMap, SymList, LazySplit, AttrDict, RegexMatch, tuple)) or S.is_str(o):
            if isinstance(o, tuple) and hasattr(o, '_fields') and name in o._fields:
                return getattr(o, name)
            if isinstance(o, RegexMatch) and name == 'lastindex':
                raise Unsupported('match.lastindex')
            return BuiltinMethod(o, name)
        if isinstance(o, type):
            a = None
            for c in o.__mro__:
                if name in c.__dict__:
                    a = c.__dict__[name]
                    break
            if isinstance(a, staticmethod):
                return a.__func__
            if isinstance(a, classmethod):
                return BoundMethod(a.__func__, o) if isinstance(a.__func__, types.FunctionType) \
                    else getattr(o, name)
            if a is not None and isinstance(a, types.FunctionType):
                return a
            try:
                v = getattr(o, name)
            except AttributeError as e:
                if default:
                    return default[0]
                raise PyRaise(e)
            return self.static_value(o, name, v)
        if isinstance(o, (dict, list, set, frozenset)) or isinstance(o, types.MappingProxyType):
            return BuiltinMethod(o, name)
        if isinstance(o, (BoundMethod, LocalFn)):
            if name == '__name__':
                return (o.fn.__name__ if isinstance(o, BoundMethod) else o.name)
            raise Unsupported('attribute of a function value')
        if isinstance(o, BuiltinMethod):
            raise Unsupported('attribute of a method')
        if o is None:
            if default:
                return default[0]
            raise PyRaise(AttributeError(f"'NoneType' object has no attribute '{name}'"))
        try:
            if name == '_cache' and isinstance(o, Music21Object):
                self.caches[id(o._cache)] = o._cache     # its own, like its attributes
            return getattr(o, name, *default)
        except AttributeError as e:
            raise PyRaise(e)

    def static_value(self, cls, name, v):
        """class attribute: replaced by an arbitrary-state map when the contract declares it mutable"""
        for c in cls.__mro__:
            if (c, name) in self.statics:
                return self.statics[(c, name)]
        if id(v) in self.live:
            return self.live[id(v)]
        if isinstance(v, dict):
            mk = self.opts.get('static_maps')
            if mk:
                r = mk(self, cls, name, v)
                if r is not None:
                    for c in cls.__mro__:
                        if name in c.__dict__:
                            self.statics[(c, name)] = r
                            return r
        return v

    def numden(self, s):
        if s.k == 'int':
            return s, 1
        key = ('numden', s.e.sexpr())
        if key not in self.ctx.memo:
            n, d = self.ctx.fresh_int('num'), self.ctx.fresh_int('den')
            g = GCD(n, d)
            self.ctx.assume(z3.And(d >= 1, s.e * z3.ToReal(d) == z3.ToReal(n), GCD(n, d) == 1,
                                   (s.e > 0) == (n > 0), (s.e == 0) == (n == 0),
                                   z3.Implies(n == 0, d == 1)))
            self.ctx.memo[key] = (n, d)
            for x in int_atoms(s.e):
                # an exact unit fraction 1/x: then the reduced form is 1 over x
                r, _ = self.ctx.valid(z3.And(x > 0, s.e * z3.ToReal(x) == 1), 1000)
                if r == 'yes':
                    self.ctx.assume(z3.And(n == 1, d == x))
                    break
        n, d = self.ctx.memo[key]
        return Sym('int', n), Sym('int', d)

    def setattr(self, o, name, v):
        if isinstance(o, VObj):
            for c in o.cls.__mro__:
                if name in c.__dict__:
                    a = c.__dict__[name]
                    if isinstance(a, property):
                        if a.fset is None:
                            raise PyRaise(AttributeError(f"property '{name}' has no setter"))
                        self.call(BoundMethod(a.fset, o), [v], {})
                        return
                    break
            o.d[name] = v
            self.mutlog.append(o)
            return
        if isinstance(o, type):
            self.mutlog.append(o)
            self.statics[(o, name)] = v
            return
        if is_symbolic(o) or is_symbolic(v):
            raise Unsupported(f'attribute store on {type(o).__name__}')
        try:
            setattr(o, name, to_native(v))
        except Exception as e:
            raise PyRaise(e)

    def setitem(self, o, i, v):
        self.mutlog.append(o)
        if isinstance(o, VList):
            if isinstance(i, slice):
                if is_symbolic((i.start, i.stop, i.step)):
                    raise Unsupported('slice store')
                o.items[i] = list(self.iter_concrete(v))
                return
            n = len(o.items)
            if isinstance(i, Sym):
                conds = [i.e == j for j in range(-n, n)] + [z3.Or(i.e < -n, i.e >= n)]
                c = self.ctx.choose(conds)
                if c == 2 * n:
                    raise PyRaise(IndexError('list assignment index out of range'))
                i = range(-n, n)[c]
            try:
                o.items[i] = v
            except IndexError as e:
                raise PyRaise(e)
            return
        if isinstance(o, (VDict, SymMap)):
            self.dict_set(o, i, v)
            return
        if isinstance(o, LazySplit):
            if is_symbolic(i):
                raise Unsupported('symbolic store into a split')
            if o.shared:
                raise Unsupported('store into a copied split')
            self.force_split(o)
            try:
                o.done[i] = v
            except IndexError as e:
                raise PyRaise(e)
            return
        if isinstance(o, VObj):
            self.call(self.getattr(o, '__setitem__'), [i, v], {})
            return
        if isinstance(o, SymList):
            idx = self.norm_index(i, o.n)
            for ent in o.entries:
                if self.ctx.branch(ent[0] == idx):
                    ent[1] = v
                    return
            o.entries.append([idx, v])
            return
        if isinstance(o, dict):
            c = self.live.get(id(o))
            if id(o) in self.caches and type(i) is str and type(v) in (type(None), bool, int, float, str):
                o[i] = v
                return
            if c is None:
                raise Unsupported('write to shared module state without an invariant: ' + str(i)[:60])
            self.dict_set(c, i, v)
            return
        raise Unsupported(f'item store on {type(o).__name__}')

    def delitem(self, o, i):
        self.mutlog.append(o)
        if isinstance(o, (VDict, SymMap)):
            self.dict_del(o, i)
            return
        if isinstance(o, VList):
            if isinstance(i, slice) and not is_symbolic((i.start, i.stop, i.step)):
                del o.items[i]
                return
            if isinstance(i, Sym):
                n = len(o.items)
                c = self.ctx.choose([i.e == j for j in range(-n, n)] + [z3.Or(i.e < -n, i.e >= n)])
                if c == 2 * n:
                    raise PyRaise(IndexError('list index out of range'))
                i = range(-n, n)[c]
            try:
                del o.items[i]
            except IndexError as e:
                raise PyRaise(e)
            return
        raise Unsupported('del item')

    # ================================================================ iteration
    def iterspec(self, v):
        """-> ('concrete', list) or ('sym', IterSpec)"""
        if isinstance(v, str):
            return 'concrete', list(v)
        if isinstance(v, Sym):
            if v.k == 'char':
                return 'concrete', [v]
            if v.k == 'str':
                ps = S.parts_of(v)
                if all(p.kind in ('lit', 'chr') for p in ps):
                    out = []
                    for p in ps:
                        out += list(p.text) if p.kind == 'lit' else [Sym('char', p.e)]
                    return 'concrete', out
                key = v.seqkey or v.e.sexpr()
                n = z3.Length(v.e)
                sp = IterSpec(n, lambda k: S.char_at(self.ctx, v, k), key)
                sp.lazy = lambda: S.peel_chars(self.ctx, v)
                sp.rope = v
                return 'sym', sp
            raise PyRaise(TypeError('not iterable'))
        if isinstance(v, tuple):
            return 'concrete', list(v)
        if isinstance(v, VList):
            return 'concrete', v.items        # live list: mutation during iteration is visible
        if isinstance(v, VSet):
            return 'concrete', list(v.items)
        if isinstance(v, VDict):
            return 'concrete', [k for k, _ in v.entries]
        if isinstance(v, SymList):
            return 'sym', IterSpec(v.n, lambda k: self.symlist_get(v, k), v.seqkey)
        if isinstance(v, IterSpec):
            return 'sym', v
        if isinstance(v, VIter):
            items = v.items[v.pos:]
            v.pos = len(v.items)
            return 'concrete', items
        if isinstance(v, LazySplit):
            if v.rest is None:
                return 'concrete', v.done
            self.force_split(v)
            return 'concrete', v.done
        if isinstance(v, SymMap):
            raise Unsupported('iteration over an unbounded map')
        if isinstance(v, VObj):
            f = self.class_attr(v.cls, '__iter__')
            if f is not None:
                return self.iterspec(self.call(BoundMethod(f, v), [], {}))
            raise Unsupported(f'iteration over {v.cls.__name__}')
        if v is None:
            raise PyRaise(TypeError("'NoneType' object is not iterable"))
        if id(v) in self.live:
            return self.iterspec(self.live[id(v)])
        try:
            return 'concrete', list(v)
        except TypeError as e:
            raise PyRaise(e)

    def iter_concrete(self, v):
        k, it = self.iterspec(v)
        if k == 'concrete':
            return it
        n = z3.simplify(it.n) if not isinstance(it.n, int) else it.n
        if isinstance(n, int) or z3.is_int_value(n):
            n = n if isinstance(n, int) else n.as_long()
            return [it.elem(z3.IntVal(i)) for i in range(n)]
        bound = self.opts.get('unroll')
        if bound is None:
            raise Unsupported('unbounded iteration outside a loop')
        out = []
        i = 0
        while self.ctx.branch(it.n > i):
            if i >= bound:
                self.ctx.memo['bounded'] = f'at most {bound} iterations'
                raise PathEnd('unroll bound')
            out.append(it.elem(z3.IntVal(i)))
            i += 1
        return out

    # ================================================================ calls
    def call(self, f, args, kwargs):
        from . import intrinsics
        if isinstance(f, BoundMethod):
            return self.call_fn(f.fn, [f.self_] + list(args), kwargs)
        if isinstance(f, BuiltinMethod):
            return intrinsics.method(self, f.obj, f.name, args, kwargs)
        if isinstance(f, LocalFn):
            return self.call_local(f, args, kwargs)
        if isinstance(f, Sym) or f is None:
            raise PyRaise(TypeError('not callable'))
        return self.call_fn(f, list(args), kwargs)

    def call_fn(self, f, args, kwargs):
        from . import intrinsics
        try:
            h = intrinsics.TABLE.get(f)
        except TypeError:
            h = None
        if h is not None:
            return h(self, args, kwargs)
        if isinstance(f, Fold):
            return f.apply(self, args[0])
        if isinstance(f, functools.partial):
            return self.call(f.func, list(f.args) + list(args), {**f.keywords, **kwargs})
        if isinstance(f, operator.attrgetter):
            got = []
            for path in f.__reduce__()[1]:
                v = args[0]
                for n in path.split('.'):
                    v = self.getattr(v, n)
                got.append(v)
            return got[0] if len(got) == 1 else tuple(got)
        if isinstance(f, operator.itemgetter):
            got = [self.getitem(args[0], k) for k in f.__reduce__()[1]]
            return got[0] if len(got) == 1 else tuple(got)
        w = getattr(f, '__wrapped__', None)
        if w is not None and not isinstance(f, (types.FunctionType, type)) and isinstance(w, types.FunctionType):
            f = w                         # functools.lru_cache / cache
        if isinstance(f, types.MethodType):
            if interpretable(f.__func__):
                return self.call_fn(f.__func__, [f.__self__] + args, kwargs)
        if isinstance(f, type):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, types.FunctionType):
            if self.registry is not None:
                c = self.registry.lookup(f)
                if c is not None and (f is not self.target or self.depth > 0) and not self.opts.get('inline_all'):
                    if f is self.target and not self.opts.get('recursive_contract', True):
                        pass
                    else:
                        return self.apply_contract(c, f, args, kwargs)
            if interpretable(f):
                return self.call_interp(f, args, kwargs)
        if isinstance(f, VObj):
            return self.call(self.getattr(f, '__call__'), args, kwargs)
        # native
        if isinstance(f, types.BuiltinMethodType) and is_symbolic(args) is False:
            pass
        if any(is_symbolic(a) for a in args) or any(is_symbolic(a) for a in kwargs.values()):
            raise Unsupported(f'native call {getattr(f, "__qualname__", f)} on symbolic arguments')
        try:
            r = f(*[to_native(a) for a in args], **{k: to_native(v) for k, v in kwargs.items()})
        except Exception as e:
            raise PyRaise(e)
        return from_native(r) if type(r) in (list, dict, set, tuple) else r

    def apply_contract(self, c, f, args, kwargs):
        self.contracts_used.add((c.pid, c.name))
        bound = self.bind(f, fn_node(f), args, kwargs)
        names = [a for a in bound]
        vals = [bound[a] for a in names]
        return c.apply(self, f, vals)

    def instantiate(self, cls, args, kwargs):
        if issubclass(cls, BaseException):
            if is_symbolic(tuple(args)):
                try:
                    e = cls('<symbolic>')
                except Exception:
                    raise Unsupported('exception construction')
                return e
            try:
                return cls(*[to_native(a) for a in args], **{k: to_native(v) for k, v in kwargs.items()})
            except Exception as e:
                raise PyRaise(e)
        if issubclass(cls, enum.Enum):
            if args and isinstance(args[0], Sym):
                members = list(cls)
                conds = [self.eq(m.value, args[0]) for m in members]
                c = self.ctx.choose(conds + [self.znot(self.zor(conds))])
                if c == len(members):
                    raise PyRaise(ValueError('not a member'))
                return members[c]
            try:
                return cls(*[to_native(a) for a in args])
            except Exception as e:
                raise PyRaise(e)
        if interp_module(cls.__module__ or '') and not (issubclass(cls, Music21Object) and not is_symbolic(tuple(args)) and not is_symbolic(tuple(kwargs.values()))):
            if issubclass(cls, tuple):
                if is_symbolic(tuple(args)) or kwargs:
                    return cls(*args, **kwargs)
                return cls(*args)
            o = VObj(cls)
            init = self.class_attr(cls, '__init__')
            if isinstance(init, types.FunctionType):
                if interpretable(init) or (self.registry and self.registry.lookup(init)):
                    self.call_fn(init, [o] + args, kwargs)
                elif dataclasses.is_dataclass(cls):
                    self.dataclass_init(cls, o, args, kwargs)
                else:
                    raise Unsupported('constructor of ' + cls.__name__)
            return o
        if any(is_symbolic(a) for a in args) or any(is_symbolic(a) for a in kwargs.values()):
            if issubclass(cls, tuple) and hasattr(cls, '_fields'):
                return cls(*args, **kwargs)
            raise Unsupported(f'native constructor {cls.__name__} on symbolic arguments')
        try:
            r = cls(*[to_native(a) for a in args], **{k: to_native(v) for k, v in kwargs.items()})
        except Exception as e:
            raise PyRaise(e)
        return from_native(r) if type(r) in (list, dict, set) else r

    def dataclass_init(self, cls, o, args, kwargs):
        fs = [f for f in dataclasses.fields(cls) if f.init]
        for f, a in zip(fs, args):
            o.d[f.name] = a
        for f in fs[len(args):]:
            if f.name in kwargs:
                o.d[f.name] = kwargs[f.name]
            elif f.default is not dataclasses.MISSING:
                o.d[f.name] = f.default
            elif f.default_factory is not dataclasses.MISSING:
                o.d[f.name] = from_native(f.default_factory())
            else:
                raise PyRaise(TypeError('missing argument'))

    def bind(self, f, node, args, kwargs, defaults=None, kwdefaults=None):
        """-> ordered dict of parameter -> value"""
        a = node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        if defaults is None:
            defaults = list(f.__defaults__ or ())
            kwdefaults = dict(f.__kwdefaults__ or {})
        env = {}
        args = list(args)
        kwargs = dict(kwargs)
        for i, p in enumerate(params):
            if i < len(args):
                env[p] = args[i]
                if p in kwargs:
                    raise PyRaise(TypeError(f'multiple values for {p}'))
            elif p in kwargs:
                env[p] = kwargs.pop(p)
            else:
                j = i - (len(params) - len(defaults))
                if j < 0:
                    raise PyRaise(TypeError(f'missing argument {p}'))
                env[p] = defaults[j]
        if a.vararg:
            env[a.vararg.arg] = tuple(args[len(params):])
        elif len(args) > len(params):
            raise PyRaise(TypeError('too many positional arguments'))
        for p in a.kwonlyargs:
            if p.arg in kwargs:
                env[p.arg] = kwargs.pop(p.arg)
            elif p.arg in kwdefaults:
                env[p.arg] = kwdefaults[p.arg]
            else:
                raise PyRaise(TypeError(f'missing keyword argument {p.arg}'))
        if a.kwarg:
            env[a.kwarg.arg] = VDict([[k, v] for k, v in kwargs.items()])
        elif kwargs:
            raise PyRaise(TypeError('unexpected keyword argument ' + next(iter(kwargs))))
        return env

    def call_interp(self, f, args, kwargs):
        node = fn_node(f)
        if self.depth > 60:
            raise Unsupported('recursion depth')
        fr = Frame(f.__globals__, f.__qualname__, file=f.__code__.co_filename)
        fr.env = self.bind(f, node, args, kwargs)
        if f.__closure__:
            for nm, cell in zip(f.__code__.co_freevars, f.__closure__):
                try:
                    fr.closure[nm] = cell.cell_contents
                except ValueError:
                    pass
        self.called.add(f'{f.__module__}:{f.__qualname__}')
        if f.__module__.startswith('specs') and getattr(f, '_merge', False):
            fr.merge = True
        return self.run_body(node, fr)

    def call_local(self, lf, args, kwargs):
        fr = Frame(lf.frame.globs, lf.frame.qual + '.' + lf.name, parent=lf.frame, file=lf.frame.file,
                   merge=lf.frame.merge)
        fr.closure = lf.frame.closure
        fr.env = self.bind(None, lf.node, args, kwargs, lf.defaults, lf.kwdefaults)
        if isinstance(lf.node, ast.Lambda):
            self.depth += 1
            try:
                return self.eval(lf.node.body, fr)
            finally:
                self.depth -= 1
        return self.run_body(lf.node, fr)

    def run_body(self, node, fr):
        if isinstance(node, ast.Lambda):
            self.depth += 1
            try:
                return self.eval(node.body, fr)
            finally:
                self.depth -= 1
        if isinstance(node, ast.AsyncFunctionDef):
            raise Unsupported('async')
        if _is_generator(node):
            return self.run_generator(node, fr)
        self.depth += 1
        try:
            self.exec_block(node.body, fr)
        except Ret as r:
            return r.v
        finally:
            self.depth -= 1
        return None

    def run_generator(self, node, fr):
        """A generator is run eagerly to a list of yielded values (sound when its body and the
        consumer do not interleave effects)."""
        out = []
        fr.env['$yield'] = out
        self.depth += 1
        try:
            self.exec_block(node.body, fr)
        except Ret:
            pass
        finally:
            self.depth -= 1
        return VIter(out)

    # ================================================================ names
    def lookup(self, name, fr):
        f = fr
        while f is not None:
            if name in f.env:
                v = f.env[name]
                if v is UNDEF:
                    raise Unsupported(f'possibly undefined variable {name}')
                return v
            f = f.parent
        if name in fr.closure:
            return fr.closure[name]
        if name in fr.globs:
            v = fr.globs[name]
            if id(v) in self.live:
                return self.live[id(v)]
            return v
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise PyRaise(NameError(name))

    def assign_name(self, name, v, fr):
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None:
                if name in f.env:
                    f.env[name] = v
                    return
                f = f.parent
            raise Unsupported('global statement')
        fr.env[name] = v

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            self.setitem(o, self.eval_index(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, t.elts)
            for tt, x in zip(t.elts, items):
                self.assign(tt.value if isinstance(tt, ast.Starred) else tt, x, fr)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, elts):
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if isinstance(v, LazySplit):
            n = len(elts)
            if star:
                self.force_split(v)
            else:
                while len(v.done) <= n:
                    if not S.next_piece(self.ctx, v):
                        break
                if v.rest is not None or len(v.done) != n:
                    raise PyRaise(ValueError('unpack'))
            items = list(v.done)
        else:
            items = list(self.iter_concrete(v))
        if star:
            i = star[0]
            after = len(elts) - i - 1
            if len(items) < len(elts) - 1:
                raise PyRaise(ValueError('not enough values to unpack'))
            return items[:i] + [VList(items[i:len(items) - after])] + (items[len(items) - after:] if after else [])
        if len(items) != len(elts):
            raise PyRaise(ValueError('unpack'))
        return items

    # ================================================================ statements
    def exec_block(self, body, fr):
        for st in body:
            self.exec(st, fr)

    def exec(self, st, fr):
        m = getattr(self, 'x_' + type(st).__name__, None)
        if m is None:
            raise Unsupported('statement ' + type(st).__name__)
        return m(st, fr)

    def x_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, fr)

    def x_Pass(self, st, fr):
        pass

    def x_Return(self, st, fr):
        raise Ret(self.eval(st.value, fr) if st.value is not None else None)

    def x_Assign(self, st, fr):
        v = self.eval(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, fr), fr)

    OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%',
           ast.Pow: '**', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<',
           ast.RShift: '>>', ast.MatMult: '@'}
    CMP = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=',
           ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}

    def x_AugAssign(self, st, fr):
        t = st.target
        op = self.OPS[type(st.op)]
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
            self.assign_name(t.id, self.inplace(op, cur, self.eval(st.value, fr)), fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.inplace(op, cur, self.eval(st.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            i = self.eval_index(t.slice, fr)
            cur = self.getitem(o, i)
            self.setitem(o, i, self.inplace(op, cur, self.eval(st.value, fr)))
        else:
            raise Unsupported('augmented assignment')

    def inplace(self, op, cur, v):
        if op == '+' and isinstance(cur, VList):
            self.mutlog.append(cur)
            cur.items.extend(self.iter_concrete(v))
            return cur
        return self.binop(op, cur, v)

    def x_If(self, st, fr):
        if self.truth(self.eval(st.test, fr)):
            self.exec_block(st.body, fr)
        else:
            self.exec_block(st.orelse, fr)

    def x_Assert(self, st, fr):
        v = self.zbool(self.eval(st.test, fr))
        if fr.file.startswith(self.opts.get('specdir', '/nonexistent')) and self.opts.get('assert_is_obligation', True):
            self.ctx.oblige(f'{self.opts.get("cname", fr.qual)}: assert line {st.lineno}: '
                            + ast.unparse(st.test)[:120], v)
            return
        if not self.ctx.branch(v):
            raise PyRaise(AssertionError('assert'))

    def x_Raise(self, st, fr):
        if st.exc is None:
            cur = fr.env.get('$exc')
            if cur is None:
                raise Unsupported('bare raise')
            raise PyRaise(cur)
        e = self.eval(st.exc, fr)
        if isinstance(e, type) and issubclass(e, BaseException):
            e = e()
        raise PyRaise(e)

    def x_Break(self, st, fr):
        raise Brk()

    def x_Continue(self, st, fr):
        raise Cont()

    def x_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                fr.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.eval(t.value, fr), self.eval_index(t.slice, fr))
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, fr)
                if isinstance(o, VObj):
                    if t.attr not in o.d:
                        if o.lazy is not None:
                            raise Unsupported('del of an unmaterialised attribute')
                        raise PyRaise(AttributeError(t.attr))
                    self.mutlog.append(o)
                    del o.d[t.attr]
                elif isinstance(o, type) or is_symbolic(o):
                    raise Unsupported('del attribute')
                else:
                    try:
                        delattr(o, t.attr)
                    except AttributeError as e:
                        raise PyRaise(e)

    def x_Import(self, st, fr):
        for al in st.names:
            m = importlib.import_module(al.name)
            fr.env[al.asname or al.name.split('.')[0]] = m if al.asname else sys.modules[al.name.split('.')[0]]

    def x_ImportFrom(self, st, fr):
        modname = st.module or ''
        if st.level:
            pkg = fr.globs.get('__package__') or ''
            modname = importlib.util.resolve_name('.' * st.level + modname, pkg)
        m = importlib.import_module(modname)
        for al in st.names:
            try:
                fr.env[al.asname or al.name] = getattr(m, al.name)
            except AttributeError:
                fr.env[al.asname or al.name] = importlib.import_module(modname + '.' + al.name)

    def x_FunctionDef(self, st, fr):
        fr.env[st.name] = LocalFn(st, fr, st.name, [self.eval(d, fr) for d in st.args.defaults],
                                  {p.arg: self.eval(d, fr) for p, d in zip(st.args.kwonlyargs, st.args.kw_defaults)
                                   if d is not None})

    def x_Global(self, st, fr):
        raise Unsupported('global')

    def x_Nonlocal(self, st, fr):
        fr.nonlocals.update(st.names)

    def x_With(self, st, fr):
        raise Unsupported('with')

    def x_Try(self, st, fr):
        try:
            try:
                self.exec_block(st.body, fr)
            except PyRaise as r:
                h = self.match_handler(st.handlers, r.exc, fr)
                if h is None:
                    raise
                if h.name:
                    fr.env[h.name] = r.exc
                old = fr.env.get('$exc')
                fr.env['$exc'] = r.exc
                self.exec_block(h.body, fr)
                fr.env['$exc'] = old
            else:
                self.exec_block(st.orelse, fr)
        except (PyRaise, Ret, Brk, Cont):
            self.exec_block(st.finalbody, fr)
            raise
        else:
            self.exec_block(st.finalbody, fr)

    def match_handler(self, handlers, exc, fr):
        for h in handlers:
            if h.type is None:
                return h
            t = self.eval(h.type, fr)
            if isinstance(exc, t):
                return h
        return None

    def x_Match(self, st, fr):
        subj = self.eval(st.subject, fr)
        for case in st.cases:
            if self.match_pattern(case.pattern, subj, fr):
                if case.guard is None or self.truth(self.eval(case.guard, fr)):
                    self.exec_block(case.body, fr)
                    return

    def match_pattern(self, p, v, fr):
        if isinstance(p, ast.MatchValue):
            return self.ctx.branch(self.eq(v, self.eval(p.value, fr)))
        if isinstance(p, ast.MatchSingleton):
            return self.ctx.branch(self.is_(v, p.value))
        if isinstance(p, ast.MatchOr):
            return any(self.match_pattern(q, v, fr) for q in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match_pattern(p.pattern, v, fr):
                return False
            if p.name:
                fr.env[p.name] = v
            return True
        raise Unsupported('match pattern')

    # ---------------------------------------------------------------- loops
    def x_For(self, st, fr):
        kind, it = self.iterspec(self.eval(st.iter, fr))
        if kind == 'sym':
            n = it.n if isinstance(it.n, int) else z3.simplify(it.n)
            if not isinstance(n, int) and z3.is_int_value(n):
                n = n.as_long()
            if isinstance(n, int):
                kind, it = 'concrete', [it.elem(z3.IntVal(i)) for i in range(n)]
        if kind == 'concrete':
            i = 0
            broke = False
            while i < len(it):
                self.assign(st.target, it[i], fr)
                i += 1
                try:
                    self.exec_block(st.body, fr)
                except Brk:
                    broke = True
                    break
                except Cont:
                    continue
            if not broke:
                self.exec_block(st.orelse, fr)
            return
        if self.opts.get('unroll') is not None:
            return self.unrolled_for(st, it, fr)
        if self.opts.get('peel') is not None:
            return self.unrolled_for(st, it, fr, self.opts['peel'])
        if it.rope is not None and not self.fold_instances and self.loops is not None:
            from .loops import segment_for
            if segment_for(self, st, it, fr):
                return
        self.loops.cut(self, st, fr, it)

    def unrolled_for(self, st, it, fr, peel=None):
        bound = self.opts['unroll'] if peel is None else peel

        def plain():
            i = 0
            while self.ctx.branch(it.n > i):
                yield it.elem(z3.IntVal(i)), False
                i += 1
        i = 0
        for v, decided in (it.lazy() if peel is not None and it.lazy is not None else plain()):
            if not decided:
                if i >= bound:
                    if peel is not None:
                        raise Unsupported('loop runs longer than it was peeled')
                    self.opts['bounded_hit'] = True
                    raise PathEnd('unroll bound')
                i += 1
            self.assign(st.target, v, fr)
            try:
                self.exec_block(st.body, fr)
            except Brk:
                return
            except Cont:
                continue
        self.exec_block(st.orelse, fr)

    def x_While(self, st, fr):
        # run concretely while the guard is decided by the path; a symbolic guard needs an invariant
        limit = self.opts.get('while_unroll', 0)
        concrete_iters = 0
        snapshot_key = (fr.qual, st.lineno, st.col_offset)
        if self.loops is not None and self.loops.is_cut(snapshot_key):
            return self.loops.cut(self, st, fr, None)
        symbolic_iters = 0
        while True:
            g = self.zbool(self.eval(st.test, fr))
            if not isinstance(g, bool):
                gs = z3.simplify(g)
                if z3.is_true(gs):
                    g = True
                elif z3.is_false(gs):
                    g = False
            if not isinstance(g, bool):
                if concrete_iters == 0 and symbolic_iters == 0 and not limit and self.loops is not None:
                    return self.loops.cut(self, st, fr, None)
                symbolic_iters += 1
                if self.ctx.branch(g):
                    if symbolic_iters > max(limit, self.opts.get('unroll') or 0, 64):
                        if self.opts.get('unroll') is not None:
                            self.opts['bounded_hit'] = True
                            raise PathEnd('unroll bound')
                        raise Unsupported('while loop does not unroll')
                else:
                    break
            elif not g:
                break
            concrete_iters += 1
            if concrete_iters > 20000:
                raise Unsupported('loop too long')
            try:
                self.exec_block(st.body, fr)
            except Brk:
                return
            except Cont:
                continue
        self.exec_block(st.orelse, fr)

    # ================================================================ expressions
    def eval(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression ' + type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr)

    def e_Tuple(self, e, fr):
        return tuple(self.eval_elts(e.elts, fr))

    def eval_elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iter_concrete(self.eval(x.value, fr)))
            else:
                out.append(self.eval(x, fr))
        return out

    def e_List(self, e, fr):
        return VList(self.eval_elts(e.elts, fr))

    def e_Set(self, e, fr):
        s = VSet()
        for x in self.eval_elts(e.elts, fr):
            if not self.ctx.branch(self.contains(s, x)):
                s.items.append(x)
        return s

    def e_Dict(self, e, fr):
        d = VDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.eval(v, fr)
                if isinstance(src, VDict):
                    for a, b in src.entries:
                        self.dict_set(d, a, b)
                elif isinstance(src, dict):
                    for a, b in src.items():
                        self.dict_set(d, a, b)
                else:
                    raise Unsupported('dict unpack')
            else:
                kk = self.eval(k, fr)
                self.dict_set(d, kk, self.eval(v, fr))
        return d

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        return self.binop(self.OPS[type(e.op)], a, b)

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        return self.unary({ast.Not: 'not', ast.USub: '-', ast.UAdd: '+', ast.Invert: '~'}[type(e.op)], v)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        if fr.merge or all(_simple(x) for x in e.values):
            vals = []
            ok = True
            for i, x in enumerate(e.values):
                try:
                    v = self.eval(x, fr)
                except PyRaise:
                    if i == 0:
                        raise
                    ok = False
                    break
                if self.sym_of(v) != 'bool':
                    ok = False
                    break
                vals.append(v)
                if isinstance(v, bool) and v != isand:
                    # decided: earlier ones still matter only if symbolic
                    return v if all(isinstance(u, bool) for u in vals[:-1]) else \
                        self.mkbool(self.zand([self.zbool(u) for u in vals]) if isand
                                    else self.zor([self.zbool(u) for u in vals]))
            if ok:
                zs = [self.zbool(v) for v in vals]
                return self.mkbool(self.zand(zs) if isand else self.zor(zs))
        for i, x in enumerate(e.values):
            v = self.eval(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if t != isand:
                return v
        return v

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = None
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, fr)
            c = self.compare(self.CMP[type(op)], left, right)
            if len(e.ops) == 1:
                return c
            if res is None:
                res = c
            else:
                res = self.mkbool(self.zand([self.zbool(res), self.zbool(c)]))
            if res is False:
                return False
            left = right
        return res

    def e_IfExp(self, e, fr):
        t = self.eval(e.test, fr)
        if fr.merge:
            c = self.zbool(t)
            if not isinstance(c, bool):
                c = z3.simplify(c)
                c = True if z3.is_true(c) else False if z3.is_false(c) else c
            if isinstance(c, bool):
                return self.eval(e.body if c else e.orelse, fr)
            a = self.eval(e.body, fr)
            b = self.eval(e.orelse, fr)
            return self.ite(c, a, b)
        if self.truth(t):
            return self.eval(e.body, fr)
        return self.eval(e.orelse, fr)

    def ite(self, c, a, b):
        if a is b:
            return a
        ka, kb = self.sym_of(a), self.sym_of(b)
        if ka == 'bool' and kb == 'bool':
            x, y = self.zbool(a), self.zbool(b)
            x = z3.BoolVal(x) if isinstance(x, bool) else x
            y = z3.BoolVal(y) if isinstance(y, bool) else y
            return Sym('bool', z3.If(c, x, y))
        if ka in ('int', 'real', 'bool') and kb in ('int', 'real', 'bool'):
            x, y = self.znum2(a, b)
            return Sym('int' if z3.is_int(x) else 'real', z3.If(c, x, y))
        if ka in ('str', 'char') and kb in ('str', 'char'):
            if ka == 'char' and kb == 'char':
                return Sym('char', z3.If(c, a.e, b.e))
            x = z3.If(c, S.zstr(a), S.zstr(b))
            return Sym('str', x, seqkey=x.sexpr())
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.ite(c, x, y) for x, y in zip(a, b))
        return a if self.ctx.branch(c) else b

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.assign_name(e.target.id, v, fr)
        return v

    def e_Lambda(self, e, fr):
        return LocalFn(e, fr, '<lambda>', [self.eval(d, fr) for d in e.args.defaults],
                       {p.arg: self.eval(d, fr) for p, d in zip(e.args.kwonlyargs, e.args.kw_defaults)
                        if d is not None})

    def e_Starred(self, e, fr):
        raise Unsupported('starred')

    def eval_index(self, s, fr):
        if isinstance(s, ast.Slice):
            return slice(self.eval(s.lower, fr) if s.lower else None,
                         self.eval(s.upper, fr) if s.upper else None,
                         self.eval(s.step, fr) if s.step else None)
        return self.eval(s, fr)

    def e_Slice(self, s, fr):
        return self.eval_index(s, fr)

    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        return self.getitem(o, self.eval_index(e.slice, fr))

    def e_JoinedStr(self, e, fr):
        out = ''
        for v in e.values:
            if isinstance(v, ast.Constant):
                out = S.concat(out, v.value)
            else:
                out = S.concat(out, self.e_FormattedValue(v, fr))
        return out

    def e_FormattedValue(self, v, fr):
        from . import intrinsics
        x = self.eval(v.value, fr)
        spec = ''
        if v.format_spec is not None:
            spec = self.eval(v.format_spec, fr)
        if v.conversion == 114:
            if is_symbolic(x):
                raise Unsupported('!r formatting')
            x = repr(to_native(x))
        if not is_symbolic(x) and isinstance(spec, str):
            try:
                return format(to_native(x), spec)
            except Exception as ex:
                raise PyRaise(ex)
        if spec == '':
            return intrinsics.to_str(self, x)
        return intrinsics.format_spec(self, x, spec)

    def e_Call(self, e, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and 'super' not in fr.env:
            cls = fr.closure.get('__class__')
            if cls is None:
                raise Unsupported('super outside a class')
            first = next(iter(fr.env.values()))
            return SuperProxy(cls, first)
        if isinstance(e.func, ast.Name) and e.func.id in ('any', 'all', 'sum', 'next', 'list', 'tuple', 'set',
                                                          'min', 'max', 'sorted', 'dict', 'len') \
                and len(e.args) >= 1 and isinstance(e.args[0], ast.GeneratorExp):
            r = self.gen_call(e, fr)
            if r is not NotImplemented:
                return r
        f = self.eval(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iter_concrete(self.eval(a.value, fr)))
            else:
                args.append(self.eval(a, fr))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, fr)
                if isinstance(d, VDict):
                    for a, b in d.entries:
                        kwargs[a] = b
                elif isinstance(d, dict):
                    kwargs.update(d)
                else:
                    raise Unsupported('** call')
            else:
                kwargs[k.arg] = self.eval(k.value, fr)
        if f is locals or f is globals or f is eval or f is exec:
            raise Unsupported('reflection')
        return self.call(f, args, kwargs)

    def gen_call(self, e, fr):
        """any/all/sum over a generator expression whose source may be unbounded"""
        g = e.args[0]
        if e.func.id not in ('any', 'all', 'sum', 'next'):
            return NotImplemented
        # look at the first iterable: only desugar when it is symbolic
        first = self.eval(g.generators[0].iter, fr)
        kind, it = self.iterspec(first)
        if kind == 'concrete' or self.opts.get('unroll') is not None:
            if isinstance(first, (VIter,)):
                first = VIter(it)
            # short-circuiting evaluation
            vals = self.comp_iter(g, fr, first)
            if e.func.id == 'any':
                if fr.merge:
                    return self.mkbool(self.zor([self.zbool(v) for v in vals]))
                for v in vals:
                    if self.truth(v):
                        return True
                return False
            if e.func.id == 'all':
                if fr.merge:
                    return self.mkbool(self.zand([self.zbool(v) for v in vals]))
                for v in vals:
                    if not self.truth(v):
                        return False
                return True
            if e.func.id == 'sum':
                acc = self.eval(e.args[1], fr) if len(e.args) > 1 else 0
                for v in vals:
                    acc = self.binop('+', acc, v)
                return acc
            if e.func.id == 'next':
                for v in vals:
                    return v
                if len(e.args) > 1:
                    return self.eval(e.args[1], fr)
                raise PyRaise(StopIteration())
            return NotImplemented
        # desugar into a loop over the same frame
        acc = '$acc%d' % e.col_offset
        if e.func.id == 'sum':
            body = [ast.AugAssign(ast.Name(acc, ast.Store()), ast.Add(), g.elt)]
            fr.env[acc] = self.eval(e.args[1], fr) if len(e.args) > 1 else 0
        elif e.func.id == 'any':
            body = [ast.If(g.elt, [ast.Assign([ast.Name(acc, ast.Store())], ast.Constant(True)), ast.Break()], [])]
            fr.env[acc] = False
        elif e.func.id == 'all':
            body = [ast.If(ast.UnaryOp(ast.Not(), g.elt),
                           [ast.Assign([ast.Name(acc, ast.Store())], ast.Constant(False)), ast.Break()], [])]
            fr.env[acc] = True
        else:
            if len(g.generators) != 1:
                return NotImplemented
            fl = acc + 'f'
            fr.env[acc] = UNDEF
            fr.env[fl] = False
            body = [ast.Assign([ast.Name(acc, ast.Store())], g.elt),
                    ast.Assign([ast.Name(fl, ast.Store())], ast.Constant(True)), ast.Break()]
        if len(g.generators) != 1:
            return NotImplemented
        gen = g.generators[0]
        for cond in reversed(gen.ifs):
            body = [ast.If(cond, body, [])]
        loop = ast.For(gen.target, ast.Constant(None), body, [])
        for nd in ast.walk(loop):
            if not hasattr(nd, 'lineno') or nd is loop:
                nd.lineno = e.lineno
                nd.col_offset = e.col_offset + 1000
        sub = Frame(fr.globs, fr.qual, parent=fr, merge=fr.merge, file=fr.file)
        sub.closure = fr.closure
        sub.env[acc] = fr.env.pop(acc)
        if acc + 'f' in fr.env:
            sub.env[acc + 'f'] = fr.env.pop(acc + 'f')
        self.loops.cut(self, loop, sub, it)
        if e.func.id == 'next':
            if self.truth(sub.env[acc + 'f']):
                return sub.env[acc]
            if len(e.args) > 1:
                return self.eval(e.args[1], fr)
            raise PyRaise(StopIteration())
        return sub.env[acc]

    def comp_iter(self, node, fr, first=None):
        sub = Frame(fr.globs, fr.qual, parent=fr, merge=fr.merge, file=fr.file)
        sub.closure = fr.closure
        elt = getattr(node, 'elt', None)

        def rec(i):
            if i == len(node.generators):
                if isinstance(node, ast.DictComp):
                    k = self.eval(node.key, sub)
                    yield (k, self.eval(node.value, sub))
                else:
                    yield self.eval(elt, sub)
                return
            g = node.generators[i]
            src = first if (i == 0 and first is not None) else self.eval(g.iter, fr if i == 0 else sub)
            for x in list(self.iter_concrete(src)):
                self.assign(g.target, x, sub)
                ok = True
                for c in g.ifs:
                    if not self.truth(self.eval(c, sub)):
                        ok = False
                        break
                if ok:
                    yield from rec(i + 1)
        return rec(0)

    def e_ListComp(self, e, fr):
        if len(e.generators) == 1:
            g = e.generators[0]
            src = self.eval(g.iter, fr)
            kind, it = self.iterspec(src)
            if kind == 'sym' and not g.ifs and self.opts.get('unroll') is None:
                n = it.n if isinstance(it.n, int) else z3.simplify(it.n)
                if not (isinstance(n, int) or z3.is_int_value(n)):
                    return self.sym_map_list(e, g, it, fr)
            if kind == 'concrete':
                return VList(list(self.comp_iter(e, fr, VList(it) if not isinstance(it, VList) else it)))
        return VList(list(self.comp_iter(e, fr)))

    def sym_map_list(self, e, g, it, fr):
        name = self.ctx.name('map')

        def mk(interp, idx):
            sub = Frame(fr.globs, fr.qual, parent=fr, merge=fr.merge, file=fr.file)
            sub.closure = fr.closure
            self.assign(g.target, it.elem(idx), sub)
            return self.eval(e.elt, sub)
        return SymList(name, it.n, mk)

    def e_SetComp(self, e, fr):
        s = VSet()
        for x in self.comp_iter(e, fr):
            if not self.ctx.branch(self.contains(s, x)):
                s.items.append(x)
        return s

    def e_GeneratorExp(self, e, fr):
        return VIter(list(self.comp_iter(e, fr)))

    def e_DictComp(self, e, fr):
        d = VDict()
        for k, v in self.comp_iter(e, fr):
            self.dict_set(d, k, v)
        return d

    def e_Yield(self, e, fr):
        f = fr
        while f is not None and '$yield' not in f.env:
            f = f.parent
        if f is None:
            raise Unsupported('yield')
        f.env['$yield'].append(self.eval(e.value, fr) if e.value is not None else None)
        return None

    def e_YieldFrom(self, e, fr):
        fr.env['$yield'].extend(self.iter_concrete(self.eval(e.value, fr)))
        return None


def sl_gt(n, i):
    return (n > i) if not isinstance(n, int) else n > i


def _simple(x):
    if isinstance(x, (ast.Name, ast.Constant)):
        return True
    if isinstance(x, ast.Compare):
        return all(_simple2(y) for y in [x.left] + x.comparators)
    if isinstance(x, ast.UnaryOp):
        return _simple(x.operand)
    if isinstance(x, ast.BoolOp):
        return all(_simple(y) for y in x.values)
    return False


def _simple2(x):
    if isinstance(x, (ast.Name, ast.Constant)):
        return True
    if isinstance(x, (ast.Tuple, ast.List)):
        return all(_simple2(y) for y in x.elts)
    if isinstance(x, ast.UnaryOp):
        return _simple2(x.operand)
    return False


def _is_generator(node):
    known = getattr(node, '_pyvc_generator', None)
    if known is None:
        known = node._pyvc_generator = _has_yield(node)
    return known


def _has_yield(node):
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False
