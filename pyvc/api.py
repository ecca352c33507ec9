"""What a specification module imports."""
from fractions import Fraction
from .contract import Prop, REG, resolve
from .loops import Fold
from .types import (Int, Real, Bool, Str, Char, OneOf, Opt, Either, Tup, ListOf, Const, Fn)


def merge(f):
    """mark a pure spec function: conditionals become solver if-then-else instead of path splits"""
    f._merge = True
    return f


def native(f):
    """mark a spec helper that only prepares real objects: it is executed, not verified"""
    f._native = True
    return f
