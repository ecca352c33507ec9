"""Symbolic value domain of pyvc."""
from __future__ import annotations
import enum
from fractions import Fraction
import z3


class Unsupported(Exception):
    """The code left the verified subset; the caller falls back to a bounded stand-in."""


class PathEnd(Exception):
    """Current path is finished (infeasible, killed after a loop cut, or completed)."""


class PyRaise(Exception):
    """A Python-level exception raised by interpreted code."""
    def __init__(self, exc):
        super().__init__(repr(exc))
        self.exc = exc


class Sym:
    """Symbolic scalar. k: int | real | bool | str | char (one-character str, e is the code point)."""
    __slots__ = ('k', 'e', 'parts', 'seqkey', 'pt')

    def __init__(self, k, e, parts=None, seqkey=None, pt=None):
        self.k = k
        self.e = e
        self.parts = parts
        self.seqkey = seqkey
        self.pt = pt

    def __repr__(self):
        return f'Sym<{self.k}:{self.e}>'

    # guard against accidental native use
    def __bool__(self):
        raise Unsupported('native truth test on a symbolic value')

    def __eq__(self, other):
        return self is other

    def __hash__(self):
        return id(self)


class Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = Undef()


class Part:
    """A piece of a rope. kind: lit(text) int(e) rep(ch,e) opq(e, excl, only, nonempty)"""
    __slots__ = ('kind', 'text', 'e', 'excl', 'only', 'nonempty')

    def __init__(self, kind, text=None, e=None, excl=None, only=None, nonempty=False):
        self.kind = kind
        self.text = text
        self.e = e
        self.excl = excl
        self.only = only
        self.nonempty = nonempty

    def __repr__(self):
        return f'Part({self.kind},{self.text},{self.e})'


class VObj:
    """Heap object of an interpreted class."""
    __slots__ = ('cls', 'd', 'tag', 'lazy')

    def __init__(self, cls, d=None, tag=None):
        self.cls = cls
        self.d = {} if d is None else d
        self.tag = tag
        self.lazy = None      # optional fn(name) -> value for unmaterialised attributes

    def __repr__(self):
        return f'<VObj {self.cls.__name__} {self.tag or hex(id(self))}>'


class VList:
    __slots__ = ('items', 'tag')

    def __init__(self, items=None):
        self.items = list(items or [])
        self.tag = None

    def __repr__(self):
        return f'VList({self.items})'


class VDict:
    """dict with a known set of entries (keys may be symbolic; they are pairwise distinct on the path)."""
    __slots__ = ('entries',)

    def __init__(self, entries=None):
        self.entries = list(entries or [])   # [key, value]

    def __repr__(self):
        return f'VDict({self.entries})'


class VSet:
    __slots__ = ('items',)

    def __init__(self, items=None):
        self.items = list(items or [])

    def __repr__(self):
        return f'VSet({self.items})'


class SymMap:
    """Unbounded map in an arbitrary state, materialised lazily.

    entries: [key, present(bool), value, dirty]; `mk(ctx, key, present)` makes a value for a key
    that is present in the arbitrary initial state and assumes the data invariant on it."""
    __slots__ = ('name', 'entries', 'mk', 'nonempty', 'dirty')

    def __init__(self, name, mk):
        self.name = name
        self.entries = []
        self.mk = mk
        self.nonempty = None   # Sym bool: initial map non-empty
        self.dirty = False


class SymList:
    """Unbounded list, length n, lazily materialised elements.  mk(ctx, idx_expr) -> value"""
    __slots__ = ('name', 'n', 'entries', 'mk', 'seqkey')

    def __init__(self, name, n, mk, seqkey=None):
        self.name = name
        self.n = n
        self.mk = mk
        self.entries = []     # [idx, value]
        self.seqkey = seqkey or name


class LazySplit:
    """s.split(sep[, maxsplit]) of a symbolic string: produced piece by piece."""
    __slots__ = ('done', 'rest', 'sep', 'left', 'shared')

    def __init__(self, rest, sep, left):
        self.done = []
        self.rest = rest     # remaining (unsplit) string value or None when exhausted
        self.sep = sep
        self.left = left     # remaining splits allowed or None
        self.shared = False  # copied (aliased): must not be written to


class AttrDict:
    """obj.__dict__ of an interpreted object"""
    __slots__ = ('o',)

    def __init__(self, o):
        self.o = o


class LazyLen:
    __slots__ = ('ls',)

    def __init__(self, ls):
        self.ls = ls


class IterSpec:
    """Abstract iterable: n elements (z3 Int), elem(k) -> value; seqkey names the underlying sequence."""
    __slots__ = ('n', 'elem', 'seqkey', 'rev', 'lazy', 'rope', 'enum', 'back')

    def __init__(self, n, elem, seqkey=None, rev=False):
        self.n = n
        self.elem = elem
        self.rope = None       # the string whose characters these are
        self.enum = None       # start of enumerate()
        self.back = False      # from the last character to the first
        self.lazy = None       # lazy() yields (element, decided) one by one, branching on the path
        self.seqkey = seqkey
        self.rev = rev


class VIter:
    """Concrete iterator over known values."""
    __slots__ = ('items', 'pos')

    def __init__(self, items):
        self.items = items
        self.pos = 0


class BoundMethod:
    __slots__ = ('fn', 'self_')

    def __init__(self, fn, self_):
        self.fn = fn
        self.self_ = self_


class BuiltinMethod:
    """Method of a non-VObj engine value, dispatched by name."""
    __slots__ = ('obj', 'name')

    def __init__(self, obj, name):
        self.obj = obj
        self.name = name


class LocalFn:
    """Function defined inside interpreted code (def / lambda)."""
    __slots__ = ('node', 'frame', 'name', 'defaults', 'kwdefaults')

    def __init__(self, node, frame, name, defaults, kwdefaults):
        self.node = node
        self.frame = frame
        self.name = name
        self.defaults = defaults
        self.kwdefaults = kwdefaults


class SuperProxy:
    __slots__ = ('cls', 'obj')

    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class RegexMatch:
    __slots__ = ('groups', 'names')

    def __init__(self, groups, names=None):
        self.groups = groups     # list, index 0 = whole
        self.names = names or {}


IMMUTABLE = (int, float, str, bool, Fraction, type(None), bytes, complex, enum.Enum, type)


def is_symbolic(v, seen=None):
    """True when v contains any symbolic or engine-heap component."""
    if isinstance(v, (Sym, VObj, SymMap, SymList, LazySplit, LazyLen, AttrDict, RegexMatch, LocalFn,
                      BoundMethod, BuiltinMethod, SuperProxy, IterSpec, Undef)):
        return True
    if isinstance(v, tuple):
        return any(is_symbolic(x) for x in v)
    if isinstance(v, VList):
        return any(is_symbolic(x) for x in v.items)
    if isinstance(v, VSet):
        return any(is_symbolic(x) for x in v.items)
    if isinstance(v, VDict):
        return any(is_symbolic(a) or is_symbolic(b) for a, b in v.entries)
    return False


def to_native(v):
    """Concrete engine value -> Python value (copies containers)."""
    if isinstance(v, tuple):
        return tuple(to_native(x) for x in v)
    if isinstance(v, VList):
        return [to_native(x) for x in v.items]
    if isinstance(v, VSet):
        return set(to_native(x) for x in v.items)
    if isinstance(v, VDict):
        return {to_native(a): to_native(b) for a, b in v.entries}
    if isinstance(v, VIter):
        return iter([to_native(x) for x in v.items[v.pos:]])
    if is_symbolic(v):
        raise Unsupported('symbolic value passed to native code')
    return v


def from_native(v):
    if type(v) is list:
        return VList([from_native(x) for x in v])
    if type(v) is tuple:
        return tuple(from_native(x) for x in v)
    if type(v) is dict:
        return VDict([[from_native(a), from_native(b)] for a, b in v.items()])
    if type(v) is set:
        return VSet([from_native(x) for x in v])
    return v


def frac_to_z3(x):
    f = Fraction(x)
    return z3.Q(f.numerator, f.denominator)
