"""Models of builtins and library functions (the assumed contracts on dependencies)."""
from __future__ import annotations
import builtins
import copy
import enum
import math
import re
import typing
import types
from fractions import Fraction
import z3
from . import strings as S
from .values import *
from .values import frac_to_z3
from .loops import Fold

TABLE = {}
ISFLOAT = z3.Function('is_float', z3.RealSort(), z3.BoolSort())
STR_REAL = z3.Function('str_of_real', z3.RealSort(), z3.StringSort())
PARSE_INT = z3.Function('parse_int', z3.StringSort(), z3.IntSort())
PARSE_REAL = z3.Function('parse_real', z3.StringSort(), z3.RealSort())
FMT_REAL = z3.Function('format_real', z3.RealSort(), z3.StringSort(), z3.StringSort())


def intrinsic(*fns):
    def deco(h):
        for f in fns:
            TABLE[f] = h
        return h
    return deco


def native(it, f, args, kwargs):
    try:
        r = f(*[to_native(a) for a in args], **{k: to_native(v) for k, v in kwargs.items()})
    except (Unsupported, PyRaise):
        raise
    except Exception as e:
        raise PyRaise(e)
    return from_native(r) if type(r) in (list, dict, set, tuple) else r


def anysym(args, kwargs=()):
    return any(is_symbolic(a) for a in args) or any(is_symbolic(v) for v in dict(kwargs).values())


# ------------------------------------------------------------------ conversions
def to_str(it, x):
    if isinstance(x, Sym):
        if x.k in ('str', 'char'):
            return x
        if x.k == 'int':
            if it.ctx.branch(x.e >= 0):
                return S.mk([Part('int', e=x.e)])
            return S.mk([Part('lit', '-'), Part('int', e=-x.e)])
        if x.k == 'bool':
            return 'True' if it.ctx.branch(x.e) else 'False'
        return Sym('str', STR_REAL(x.e), seqkey=STR_REAL(x.e).sexpr())
    if isinstance(x, VObj):
        f = it.class_attr(x.cls, '__str__')
        if isinstance(f, types.FunctionType):
            return it.call(BoundMethod(f, x), [], {})
        return '<object>'
    if is_symbolic(x):
        raise Unsupported('str() of a container')
    return str(to_native(x))


@intrinsic(str)
def i_str(it, args, kw):
    return to_str(it, args[0]) if args else ''


@intrinsic(repr)
def i_repr(it, args, kw):
    if is_symbolic(args[0]):
        if isinstance(args[0], Sym) and args[0].k == 'int':
            return to_str(it, args[0])
        raise Unsupported('repr')
    return repr(to_native(args[0]))


def format_spec(it, x, spec):
    if isinstance(x, Sym) and x.k in ('real', 'int') and isinstance(spec, str):
        e = it.znum(x)
        e = z3.ToReal(e) if z3.is_int(e) else e
        if x.k == 'int' and re.fullmatch(r'0?\d+d?', spec):
            m = re.fullmatch(r'(0?)(\d+)d?', spec)
            w = int(m.group(2))
            if not it.ctx.branch(x.e >= 0):
                raise Unsupported('negative padded int')
            # split on the number of digits
            conds = [x.e < 10] + [z3.And(x.e >= 10 ** (i - 1), x.e < 10 ** i) for i in range(2, w + 1)] \
                + [x.e >= 10 ** w]
            c = it.ctx.choose(conds)
            pad = max(0, w - (c + 1))
            return S.mk([Part('lit', ('0' if m.group(1) else ' ') * pad), Part('int', e=x.e)])
        t = FMT_REAL(e, z3.StringVal(spec))
        return Sym('str', t, seqkey=str(t))
    raise Unsupported('format spec')


@intrinsic(format)
def i_format(it, args, kw):
    if not anysym(args):
        return native(it, format, args, kw)
    if len(args) == 1:
        return to_str(it, args[0])
    return format_spec(it, args[0], args[1])


def _re_digits():
    return z3.Plus(z3.Range('0', '9'))


@intrinsic(int)
def i_int(it, args, kw):
    if not anysym(args, kw):
        return native(it, int, args, kw)
    if len(args) != 1:
        raise Unsupported('int with base')
    x = args[0]
    if not isinstance(x, Sym):
        if isinstance(x, VObj):
            f = it.class_attr(x.cls, '__int__')
            if f is not None:
                return it.call(BoundMethod(f, x), [], {})
        raise PyRaise(TypeError('int() argument'))
    if x.k == 'int':
        return x
    if x.k == 'bool':
        return Sym('int', it.znum(x))
    if x.k == 'real':
        e = z3.simplify(x.e)
        if z3.is_app_of(e, z3.Z3_OP_TO_REAL):
            return Sym('int', e.arg(0))
        return Sym('int', z3.If(x.e >= 0, z3.ToInt(x.e), -z3.ToInt(-x.e)))
    if x.k == 'char':
        if it.ctx.branch(z3.And(x.e >= 48, x.e <= 57)):
            return Sym('int', x.e - 48)
        if it.ctx.branch(x.e < 128):
            raise PyRaise(ValueError('invalid literal for int()'))
        raise Unsupported('int of a non-ASCII character')
    ps = S.parts_of(x)
    if len(ps) == 1 and ps[0].kind == 'int':
        return Sym('int', ps[0].e)
    if len(ps) == 2 and ps[0].kind == 'lit' and ps[0].text in ('-', '+') and ps[1].kind == 'int':
        return Sym('int', -ps[1].e if ps[0].text == '-' else ps[1].e)
    if len(ps) == 1 and ps[0].kind == 'rep' and ps[0].text == '0':
        return 0
    if len(ps) == 1 and ps[0].kind == 'opq' and ps[0].only is not None and ps[0].only <= S.DIGITS \
            and ps[0].nonempty:
        v = z3.StrToInt(x.e)
        it.ctx.assume(v >= 0)
        return Sym('int', v)
    # zero padded digits such as '0' + str(n)
    if ps and ps[-1].kind == 'int' and all(p.kind == 'lit' and set(p.text) == {'0'} for p in ps[:-1]):
        return Sym('int', ps[-1].e)
    for p in ps:
        if p.kind == 'lit' and not set(p.text) <= set('0123456789+-_ \t\n\r\x0b\x0c'):
            raise PyRaise(ValueError('invalid literal for int()'))
        if p.kind == 'opq' and p.nonempty and all(S.charset_has(p, c) is False for c in '0123456789+-_ \t\n\r\x0b\x0c'):
            raise PyRaise(ValueError('invalid literal for int()'))
    if all(S.charset_has(p, c) is False for p in ps for c in '0123456789'):
        raise PyRaise(ValueError('invalid literal for int()'))
    if it.ctx.branch(z3.InRe(x.e, _re_digits())):
        v = z3.StrToInt(x.e)
        it.ctx.assume(v >= 0)
        return Sym('int', v)
    ws = z3.Star(z3.Union(*[z3.Re(c) for c in S.WS]))
    sgn = z3.Option(z3.Union(z3.Re('+'), z3.Re('-')))
    body = z3.Concat(_re_digits(), z3.Star(z3.Concat(z3.Re('_'), _re_digits())))
    if it.ctx.branch(z3.InRe(x.e, z3.Concat(ws, sgn, body, ws))):
        return Sym('int', PARSE_INT(x.e))
    # (non-ASCII digits are outside the model)
    raise PyRaise(ValueError('invalid literal for int()'))


@intrinsic(float)
def i_float(it, args, kw):
    if not anysym(args):
        return native(it, float, args, kw)
    x = args[0]
    if isinstance(x, Sym):
        if x.k in ('int', 'bool'):
            return Sym('real', z3.ToReal(it.znum(x)), pt='float')
        if x.k == 'real':
            return Sym('real', x.e, pt='float')
        ps = S.parts_of(x)
        neg = bool(ps) and ps[0].kind == 'lit' and ps[0].text[:1] == '-'
        if neg:
            ps = S.parts_of(S.mk([Part('lit', ps[0].text[1:])] + list(ps[1:]))) if ps[0].text[1:] else ps[1:]
        if len(ps) > 1 and ps[0].kind == 'lit' and set(ps[0].text) == {'0'}:
            ps = ps[1:]
        if ps and ps[0].kind == 'int' and all(p.kind == 'lit' for p in ps[1:]):
            tail = ''.join(p.text for p in ps[1:])
            if re.fullmatch(r'\.[0-9]*', tail) or not tail:
                f = Fraction('0' + tail + '0') if tail else Fraction(0)
                v = z3.ToReal(ps[0].e) + z3.Q(f.numerator, f.denominator)
                return Sym('real', -v if neg else v, pt='float')
        ok = z3.Function('is_float_text', z3.StringSort(), z3.BoolSort())(S.zstr(x))
        if it.ctx.branch(ok):
            return Sym('real', PARSE_REAL(S.zstr(x)), pt='float')
        raise PyRaise(ValueError('could not convert string to float'))
    raise Unsupported('float()')


@intrinsic(bool)
def i_bool(it, args, kw):
    return it.mkbool(it.zbool(args[0])) if args else False


@intrinsic(Fraction)
def i_fraction(it, args, kw):
    if not anysym(args, kw):
        return native(it, Fraction, args, kw)
    if len(args) == 1:
        x = args[0]
        if isinstance(x, Sym) and x.k in ('int', 'real', 'bool'):
            e = it.znum(x)
            return Sym('real', z3.ToReal(e) if z3.is_int(e) else e, pt='Fraction')
        raise Unsupported('Fraction of a symbolic string')
    a, b = args
    x, y = it.znum2(a, b)
    if it.ctx.branch(y == 0):
        raise PyRaise(ZeroDivisionError('Fraction(x, 0)'))
    if z3.is_int(x):
        x, y = z3.ToReal(x), z3.ToReal(y)
    return Sym('real', x / y, pt='Fraction')


try:
    from music21.common import opFrac
    import music21.common.numberTools as _nt

    def i_opfrac(it, args, kw):
        if not anysym(args):
            return native(it, opFrac, args, kw)
        x = args[0]
        if isinstance(x, Sym) and x.k in ('int', 'real', 'bool'):
            e = it.znum(x)
            return Sym('real', z3.ToReal(e) if z3.is_int(e) else e)
        raise PyRaise(TypeError('opFrac'))
    TABLE[opFrac] = i_opfrac
except ImportError:
    pass


# ------------------------------------------------------------------ numbers
@intrinsic(abs)
def i_abs(it, args, kw):
    x = args[0]
    if not isinstance(x, Sym):
        return native(it, abs, args, kw)
    e = it.znum(x)
    return Sym('int' if z3.is_int(e) else 'real', z3.If(e >= 0, e, -e))


def minmax(it, args, kw, small):
    items = list(it.iter_concrete(args[0])) if len(args) == 1 else list(args)
    if not anysym(items):
        return native(it, min if small else max, [VList(items)], kw)
    key = kw.get('key')
    if not items:
        if 'default' in kw:
            return kw['default']
        raise PyRaise(ValueError('empty sequence'))
    best = items[0]
    for x in items[1:]:
        a, b = (best, x) if key is None else (it.call(key, [best], {}), it.call(key, [x], {}))
        c = it.zbool(it.compare('<', b, a) if small else it.compare('>', b, a))
        if it.sym_of(best) in ('int', 'real') and it.sym_of(x) in ('int', 'real') and not isinstance(c, bool):
            best = it.ite(c, x, best)
        else:
            best = x if it.ctx.branch(c) else best
    return best


@intrinsic(min)
def i_min(it, args, kw):
    return minmax(it, args, kw, True)


@intrinsic(max)
def i_max(it, args, kw):
    return minmax(it, args, kw, False)


@intrinsic(sum)
def i_sum(it, args, kw):
    acc = args[1] if len(args) > 1 else kw.get('start', 0)
    for x in it.iter_concrete(args[0]):
        acc = it.binop('+', acc, x)
    return acc


@intrinsic(any)
def i_any(it, args, kw):
    for x in it.iter_concrete(args[0]):
        if it.truth(x):
            return True
    return False


@intrinsic(all)
def i_all(it, args, kw):
    for x in it.iter_concrete(args[0]):
        if not it.truth(x):
            return False
    return True


@intrinsic(pow)
def i_pow(it, args, kw):
    if not anysym(args):
        return native(it, pow, args, kw)
    if len(args) > 2:
        raise Unsupported('pow mod')
    return it.binop('**', args[0], args[1])


@intrinsic(divmod)
def i_divmod(it, args, kw):
    return (it.binop('//', args[0], args[1]), it.binop('%', args[0], args[1]))


@intrinsic(round)
def i_round(it, args, kw):
    if not anysym(args):
        return native(it, round, args, kw)
    x = args[0]
    nd = args[1] if len(args) > 1 else kw.get('ndigits')
    if x.k == 'int' and (nd is None or (isinstance(nd, int) and nd >= 0)):
        return x

    def rnd(e):
        f = z3.ToInt(e)
        d = e - z3.ToReal(f)
        return z3.If(d < z3.Q(1, 2), f, z3.If(d > z3.Q(1, 2), f + 1, z3.If(f % 2 == 0, f, f + 1)))
    if nd is None:
        return Sym('int', rnd(x.e))
    if isinstance(nd, int):
        s = Fraction(10) ** nd
        return Sym('real', z3.ToReal(rnd(x.e * frac_to_z3(s))) / frac_to_z3(s))
    raise Unsupported('round')


@intrinsic(math.floor)
def i_floor(it, args, kw):
    x = args[0]
    if not isinstance(x, Sym):
        return native(it, math.floor, args, kw)
    return x if x.k == 'int' else Sym('int', z3.ToInt(x.e))


@intrinsic(math.ceil)
def i_ceil(it, args, kw):
    x = args[0]
    if not isinstance(x, Sym):
        return native(it, math.ceil, args, kw)
    return x if x.k == 'int' else Sym('int', -z3.ToInt(-x.e))


@intrinsic(math.gcd)
def i_gcd(it, args, kw):
    if not anysym(args):
        return native(it, math.gcd, args, kw)
    from .interp import GCD
    a, b = it.znum(args[0]), it.znum(args[1])
    g = GCD(a, b)
    qa, qb = it.ctx.fresh_int('qa'), it.ctx.fresh_int('qb')
    it.ctx.assume(z3.And(g >= 0, a == g * qa, b == g * qb, (g == 0) == z3.And(a == 0, b == 0)))
    return Sym('int', g)


# ------------------------------------------------------------------ containers
@intrinsic(len)
def i_len(it, args, kw):
    x = args[0]
    if S.is_str(x):
        n = S.length(x)
        return n if isinstance(n, int) else Sym('int', n)
    if isinstance(x, VList):
        return len(x.items)
    if isinstance(x, VSet):
        return len(x.items)
    if isinstance(x, VDict):
        return len(x.entries)
    if isinstance(x, tuple):
        return len(x)
    if isinstance(x, SymList):
        return Sym('int', x.n) if not isinstance(x.n, int) else x.n
    if isinstance(x, LazySplit):
        return len(x.done) if x.rest is None else LazyLen(x)
    if isinstance(x, VObj):
        f = it.class_attr(x.cls, '__len__')
        if f is None:
            raise PyRaise(TypeError('object has no len()'))
        return it.call(BoundMethod(f, x), [], {})
    if is_symbolic(x):
        if isinstance(x, Sym):
            raise PyRaise(TypeError('object has no len()'))
        raise Unsupported('len')
    return native(it, len, args, kw)


@intrinsic(range)
def i_range(it, args, kw):
    if not anysym(args):
        return native(it, range, args, kw)
    a, b, st = (0, args[0], 1) if len(args) == 1 else (args[0], args[1], args[2] if len(args) > 2 else 1)
    if isinstance(st, Sym) or st not in (1, -1):
        raise Unsupported('range step')
    x, y = it.znum(a), it.znum(b)
    if st == 1:
        n = z3.If(y > x, y - x, z3.IntVal(0))
        if z3.is_int_value(x) and x.as_long() == 0:
            it.ctx.memo.setdefault('range', []).append(y)
            if z3.is_app(y) and y.decl().kind() == z3.Z3_OP_SEQ_LENGTH:
                n = y
        return IterSpec(n, lambda k: Sym('int', z3.simplify(x + k)))
    n = z3.If(x > y, x - y, z3.IntVal(0))
    return IterSpec(n, lambda k: Sym('int', z3.simplify(x - k)))


@intrinsic(enumerate)
def i_enumerate(it, args, kw):
    start = args[1] if len(args) > 1 else kw.get('start', 0)
    k, s = it.iterspec(args[0])
    if k == 'concrete':
        return VIter([(it.binop('+', start, i) if start else i, x) for i, x in enumerate(list(s))])
    out = IterSpec(s.n, lambda i: (Sym('int', z3.simplify(it.znum(start) + i)), s.elem(i)), s.seqkey)
    if s.lazy is not None and isinstance(start, int):
        out.lazy = lambda: (((start + i, v), d) for i, (v, d) in enumerate(s.lazy()))
    if s.rope is not None and s.enum is None and isinstance(start, int):
        out.rope, out.enum, out.back = s.rope, start, s.back
    return out


@intrinsic(zip)
def i_zip(it, args, kw):
    specs = [it.iterspec(a) for a in args]
    if all(k == 'concrete' for k, _ in specs):
        return VIter(list(zip(*[list(s) for _, s in specs])))
    raise Unsupported('zip of unbounded sequences')


@intrinsic(reversed)
def i_reversed(it, args, kw):
    k, s = it.iterspec(args[0])
    if k == 'concrete':
        return VIter(list(reversed(list(s))))
    out = IterSpec(s.n, lambda i: s.elem(z3.simplify(s.n - 1 - i)), None, True)
    if s.rope is not None and s.enum is None:
        out.rope, out.back = s.rope, not s.back
    return out


@intrinsic(iter)
def i_iter(it, args, kw):
    k, s = it.iterspec(args[0])
    if k == 'concrete':
        return VIter(list(s))
    return s


@intrinsic(next)
def i_next(it, args, kw):
    v = args[0]
    if isinstance(v, VIter):
        if v.pos < len(v.items):
            v.pos += 1
            return v.items[v.pos - 1]
        if len(args) > 1:
            return args[1]
        raise PyRaise(StopIteration())
    if is_symbolic(v):
        raise Unsupported('next')
    try:
        return next(v, *args[1:])
    except Exception as e:
        raise PyRaise(e)


@intrinsic(list)
def i_list(it, args, kw):
    if not args:
        return VList()
    if isinstance(args[0], SymList):
        src = args[0]
        c = SymList(src.name + "'", src.n, lambda i2, i: i2.symlist_get(src, i), src.seqkey)
        return c
    return VList(list(it.iter_concrete(args[0])))


@intrinsic(tuple)
def i_tuple(it, args, kw):
    return tuple(it.iter_concrete(args[0])) if args else ()


@intrinsic(set, frozenset)
def i_set(it, args, kw):
    s = VSet()
    if args:
        for x in it.iter_concrete(args[0]):
            if not it.ctx.branch(it.contains(s, x)):
                s.items.append(x)
    return s


@intrinsic(dict)
def i_dict(it, args, kw):
    d = VDict()
    if args:
        src = args[0]
        if isinstance(src, VDict):
            for k, v in src.entries:
                d.entries.append([k, v])
        elif isinstance(src, dict):
            for k, v in src.items():
                d.entries.append([k, v])
        else:
            for pair in it.iter_concrete(src):
                k, v = it.iter_concrete(pair)
                it.dict_set(d, k, v)
    for k, v in kw.items():
        it.dict_set(d, k, v)
    return d


def sort_items(it, items, kw):
    key = kw.get('key')
    keys = [it.call(key, [x], {}) if key is not None else x for x in items]
    rev = kw.get('reverse', False)
    if not anysym(keys):
        try:
            idx = sorted(range(len(items)), key=lambda i: to_native(keys[i]), reverse=bool(rev))
        except Exception as e:
            raise PyRaise(e)
        return [items[i] for i in idx]
    out = []
    ok = []
    for x, k in zip(items, keys):          # stable insertion sort, branching on comparisons
        i = len(out)
        while i > 0:
            c = it.compare('<', k, ok[i - 1]) if not rev else it.compare('>', k, ok[i - 1])
            if not it.truth(c):
                break
            i -= 1
        out.insert(i, x)
        ok.insert(i, k)
    return out


@intrinsic(sorted)
def i_sorted(it, args, kw):
    return VList(sort_items(it, list(it.iter_concrete(args[0])), kw))


@intrinsic(map)
def i_map(it, args, kw):
    specs = [list(it.iter_concrete(a)) for a in args[1:]]
    return VIter([it.call(args[0], list(x), {}) for x in zip(*specs)])


@intrinsic(filter)
def i_filter(it, args, kw):
    f = args[0]
    return VIter([x for x in it.iter_concrete(args[1])
                  if it.truth(it.call(f, [x], {}) if f is not None else x)])


# ------------------------------------------------------------------ reflection
def type_is(it, v, t):
    if isinstance(t, tuple):
        return any(type_is(it, v, x) for x in t)
    if isinstance(t, types.UnionType):
        return any(type_is(it, v, x) for x in t.__args__)
    if isinstance(v, Sym):
        py = {'int': (int,), 'bool': (bool, int), 'str': (str,), 'char': (str,)}.get(v.k)
        if py is not None:
            return any(issubclass(p, t) for p in py)
        if v.pt == 'float':
            return issubclass(float, t)
        if v.pt == 'Fraction':
            return issubclass(Fraction, t)
        f, fr = issubclass(float, t), issubclass(Fraction, t)
        if f == fr:
            return f
        return it.ctx.branch(ISFLOAT(v.e)) == f
    if isinstance(v, VObj):
        return issubclass(v.cls, t)
    if isinstance(v, (VList, SymList, LazySplit)):
        return issubclass(list, t)
    if isinstance(v, (VDict, SymMap)):
        return issubclass(dict, t)
    if isinstance(v, VSet):
        return issubclass(set, t)
    return isinstance(v, t)


@intrinsic(isinstance)
def i_isinstance(it, args, kw):
    v, t = args
    if isinstance(t, tuple) and isinstance(v, Sym) and v.k == 'real' and v.pt is None:
        ts = []
        for x in t:
            ts.extend(x if isinstance(x, tuple) else [x])
        f = any(issubclass(float, x) for x in ts)
        fr = any(issubclass(Fraction, x) for x in ts)
        if f == fr:
            return f
        return it.ctx.branch(ISFLOAT(v.e)) == f
    return type_is(it, v, t)


@intrinsic(hasattr)
def i_hasattr(it, args, kw):
    try:
        it.getattr(args[0], args[1])
        return True
    except PyRaise as e:
        if isinstance(e.exc, AttributeError):
            return False
        raise


@intrinsic(getattr)
def i_getattr(it, args, kw):
    if isinstance(args[1], Sym):
        raise Unsupported('getattr with a symbolic name')
    return it.getattr(*args)


@intrinsic(setattr)
def i_setattr(it, args, kw):
    it.setattr(*args)


@intrinsic(callable)
def i_callable(it, args, kw):
    return isinstance(args[0], (BoundMethod, BuiltinMethod, LocalFn)) or callable(args[0])


@intrinsic(type)
def i_type(it, args, kw):
    v = args[0]
    if isinstance(v, VObj):
        return v.cls
    if isinstance(v, Sym):
        if v.k in ('str', 'char'):
            return str
        if v.k in ('int', 'bool'):
            return {'int': int, 'bool': bool}[v.k]
        raise Unsupported('type() of a symbolic number')
    if isinstance(v, VList):
        return list
    if isinstance(v, VDict):
        return dict
    return type(v)


@intrinsic(print)
def i_print(it, args, kw):
    return None


@intrinsic(ord)
def i_ord(it, args, kw):
    x = args[0]
    if isinstance(x, Sym):
        if x.k == 'char':
            return Sym('int', x.e)
        if x.k == 'str':
            if not it.ctx.branch(z3.Length(x.e) == 1):
                raise PyRaise(TypeError('ord() expected a character'))
            return Sym('int', z3.StrToCode(x.e))
        raise PyRaise(TypeError('ord()'))
    return native(it, ord, args, kw)


@intrinsic(chr)
def i_chr(it, args, kw):
    x = args[0]
    if isinstance(x, Sym):
        if not it.ctx.branch(z3.And(x.e >= 0, x.e < 0x110000)):
            raise PyRaise(ValueError('chr() arg not in range'))
        return Sym('char', x.e)
    return native(it, chr, args, kw)


@intrinsic(typing.cast)
def i_cast(it, args, kw):
    return args[1]


@intrinsic(copy.copy)
def i_copy(it, args, kw):
    v = args[0]
    if isinstance(v, VList):
        return VList(v.items)
    if isinstance(v, VDict):
        return VDict([list(e) for e in v.entries])
    if isinstance(v, VObj):
        if it.class_attr(v.cls, '__copy__') is not None:
            return it.call(BoundMethod(it.class_attr(v.cls, '__copy__'), v), [], {})
        return VObj(v.cls, dict(v.d))
    if isinstance(v, Sym):
        return v
    return native(it, copy.copy, args, kw)


@intrinsic(copy.deepcopy)
def i_deepcopy(it, args, kw):
    memo = {}

    def dc(v):
        if id(v) in memo:
            return memo[id(v)]
        if isinstance(v, VList):
            r = VList()
            memo[id(v)] = r
            r.items = [dc(x) for x in v.items]
            return r
        if isinstance(v, VDict):
            r = VDict()
            memo[id(v)] = r
            r.entries = [[dc(a), dc(b)] for a, b in v.entries]
            return r
        if isinstance(v, VObj):
            if it.class_attr(v.cls, '__deepcopy__') is not None:
                raise Unsupported('__deepcopy__')
            r = VObj(v.cls)
            memo[id(v)] = r
            r.d = {k: dc(x) for k, x in v.d.items()}
            return r
        if isinstance(v, tuple):
            return tuple(dc(x) for x in v)
        if isinstance(v, Sym) or not is_symbolic(v):
            return v if isinstance(v, Sym) else copy.deepcopy(v)
        raise Unsupported('deepcopy')
    return dc(args[0])


# ------------------------------------------------------------------ re
def _pat(p):
    if isinstance(p, Sym):
        raise Unsupported('symbolic pattern')
    return p


def regex_fn(name):
    def h(it, args, kw):
        if kw or len(args) != 2:
            if not anysym(args, kw):
                return native(it, getattr(re, name), args, kw)
            raise Unsupported('re flags')
        if not S.is_str(args[1]):
            raise PyRaise(TypeError('expected string'))
        try:
            return S.regex(it.ctx, name, _pat(args[0]), args[1])
        except re.error as e:
            raise PyRaise(e)
    return h


for _n in ('search', 'match', 'fullmatch'):
    TABLE[getattr(re, _n)] = regex_fn(_n)


@intrinsic(re.sub)
def i_sub(it, args, kw):
    if not anysym(args, kw):
        return native(it, re.sub, args, kw)
    if kw or len(args) != 3:
        raise Unsupported('re.sub arguments')
    return S.sub(it.ctx, args[0], args[1], args[2])


@intrinsic(re.finditer)
def i_finditer(it, args, kw):
    if not anysym(args, kw):
        return native(it, re.finditer, args, kw)
    if kw or len(args) != 2:
        raise Unsupported('re.finditer arguments')
    return VList(S.finditer(it.ctx, _pat(args[0]), args[1]))


# ------------------------------------------------------------------ methods
STR_NATIVE_PREDS = {'isdigit', 'isalpha', 'isupper', 'islower', 'isspace', 'isalnum', 'isnumeric', 'isdecimal'}


def method(it, o, name, args, kw):
    if isinstance(o, (str,)) or (isinstance(o, Sym) and o.k in ('str', 'char')):
        return str_method(it, o, name, args, kw)
    if isinstance(o, Sym):
        return num_method(it, o, name, args, kw)
    if isinstance(o, VList):
        return list_method(it, o, name, args, kw)
    if isinstance(o, SymList):
        return symlist_method(it, o, name, args, kw)
    if isinstance(o, (VDict, SymMap)):
        return dict_method(it, o, name, args, kw)
    if isinstance(o, VSet):
        return set_method(it, o, name, args, kw)
    if isinstance(o, AttrDict):
        if kw or is_symbolic(args[0]) or o.o.lazy is not None or name not in ('pop', 'get'):
            raise Unsupported(f'__dict__.{name}')
        d = o.o.d
        if args[0] not in d:
            if len(args) < 2 and name == 'pop':
                raise PyRaise(KeyError(args[0]))
            return args[1] if len(args) > 1 else None
        if name == 'pop':
            it.mutlog.append(o.o)
            return d.pop(args[0])
        return d[args[0]]
    if isinstance(o, LazySplit):
        if name == 'copy':
            o.shared = True
            return o
        it.force_split(o)
        if name in ('index', 'count'):
            return list_method(it, VList(o.done), name, args, kw)
        if o.shared:
            raise Unsupported('change of a copied split')
        v = VList(o.done)
        it.mutlog.append(o)
        r = list_method(it, v, name, args, kw)
        o.done = v.items
        return r
    if isinstance(o, RegexMatch):
        return match_method(it, o, name, args, kw)
    if isinstance(o, tuple):
        if name == 'index':
            for i, x in enumerate(o):
                if it.ctx.branch(it.eq(x, args[0])):
                    return i
            raise PyRaise(ValueError('not in tuple'))
        if name == 'count' and anysym(o):
            raise Unsupported('tuple.count')
        return native(it, getattr(tuple(to_native(x) for x in o), name), args, kw)
    if isinstance(o, dict) or isinstance(o, types.MappingProxyType):
        live = it.live.get(id(o))
        if live is not None:
            return dict_method(it, live, name, args, kw)
        if name == 'get':
            return it.live_dict_get(o, args[0], args[1] if len(args) > 1 else None)
        if name in ('items', 'keys', 'values', 'copy'):
            r = getattr(o, name)()
            return r if name != 'copy' else from_native(dict(o))
        raise Unsupported(f'mutation of shared module state: dict.{name}')
    if isinstance(o, (list, set, frozenset)):
        if name in ('index', 'count', 'copy', 'union', 'intersection', 'difference', 'issubset'):
            if not anysym(args):
                return native(it, getattr(o, name), args, kw)
            if name == 'index':
                for i, x in enumerate(o):
                    if it.ctx.branch(it.eq(x, args[0])):
                        return i
                raise PyRaise(ValueError('not in list'))
        raise Unsupported(f'mutation of shared module state: {name}')
    raise Unsupported(f'method {name} of {type(o).__name__}')


def num_method(it, o, name, args, kw):
    if name == 'is_integer':
        return True if o.k == 'int' else Sym('bool', z3.IsInt(o.e))
    if name == 'as_integer_ratio':
        return it.numden(o)
    if name == 'limit_denominator':
        return o
    if name == 'conjugate':
        return o
    raise Unsupported('number method ' + name)


def str_method(it, o, name, args, kw):
    ctx = it.ctx
    if not anysym([o]) and not anysym(args, kw):
        if name == 'join':
            return native(it, o.join, args, kw)
        return native(it, getattr(o, name), args, kw)
    if name == 'startswith' or name == 'endswith':
        f = S.startswith if name == 'startswith' else S.endswith
        if len(args) > 1:
            raise Unsupported(name + ' with bounds')
        if isinstance(args[0], tuple):
            return it.mkbool(it.zor([f(ctx, o, a) for a in args[0]]))
        return it.mkbool(f(ctx, o, args[0]))
    if name == 'split':
        sep = args[0] if args else kw.get('sep')
        mx = args[1] if len(args) > 1 else kw.get('maxsplit', -1)
        if sep is None or isinstance(mx, Sym):
            raise Unsupported('split on whitespace')
        if not isinstance(sep, str):
            raise Unsupported('split on a symbolic separator')
        return LazySplit(o, sep, None if mx < 0 else mx)
    if name == 'partition':
        sep = args[0]
        ls = LazySplit(o, sep, 1)
        S.next_piece(ctx, ls)
        if ls.rest is None:
            return (ls.done[0], '', '')
        return (ls.done[0], sep, ls.rest)
    if name == 'rsplit' or name == 'rpartition':
        raise Unsupported(name)
    if name == 'count':
        return S.count(ctx, o, args[0])
    if name == 'replace':
        if len(args) > 2:
            raise Unsupported('replace count')
        return S.replace(ctx, o, args[0], args[1])
    if name in ('strip', 'lstrip', 'rstrip'):
        return S.strip(ctx, o, args[0] if args else None, {'strip': 'both', 'lstrip': 'l', 'rstrip': 'r'}[name])
    if name == 'lower':
        return S.lower(ctx, o)
    if name == 'upper':
        return S.lower(ctx, o, True)
    if name == 'find':
        return S.find(ctx, o, *args)
    if name == 'index':
        r = S.find(ctx, o, *args)
        if it.truth(it.compare('<', r, 0)):
            raise PyRaise(ValueError('substring not found'))
        return r
    if name == 'join':
        out = ''
        first = True
        for x in it.iter_concrete(args[0]):
            if not S.is_str(x):
                raise PyRaise(TypeError('join: not a string'))
            if not first:
                out = S.concat(out, o)
            out = S.concat(out, x)
            first = False
        return out
    if name in STR_NATIVE_PREDS:
        if isinstance(o, Sym) and o.k == 'char':
            e = o.e
            asc = {
                'isdigit': z3.And(e >= 48, e <= 57), 'isdecimal': z3.And(e >= 48, e <= 57),
                'isnumeric': z3.And(e >= 48, e <= 57),
                'isupper': z3.And(e >= 65, e <= 90), 'islower': z3.And(e >= 97, e <= 122),
                'isalpha': z3.Or(z3.And(e >= 65, e <= 90), z3.And(e >= 97, e <= 122)),
                'isalnum': z3.Or(z3.And(e >= 65, e <= 90), z3.And(e >= 97, e <= 122), z3.And(e >= 48, e <= 57)),
                'isspace': z3.Or(e == 32, z3.And(e >= 9, e <= 13), z3.And(e >= 28, e <= 31)),
            }[name]
            uf = z3.Function('chr.' + name, z3.IntSort(), z3.BoolSort())
            return Sym('bool', z3.If(e < 128, asc, uf(e)))
        if name in ('isdigit', 'isdecimal', 'isnumeric') and isinstance(o, Sym):
            ps = S.parts_of(o)
            if len(ps) == 1 and ps[0].kind == 'int':
                return True
            if len(ps) == 1 and ps[0].kind == 'rep':
                return ps[0].text.isdigit()
        uf = z3.Function('str.' + name, z3.StringSort(), z3.BoolSort())
        if name in ('isdigit', 'isdecimal', 'isnumeric'):
            b = uf(o.e)
            ctx.assume(z3.Implies(z3.InRe(o.e, _re_digits()), b))
            ctx.assume(z3.Implies(b, z3.Length(o.e) > 0))
        return Sym('bool', uf(o.e))
    if name == 'format':
        return str_format(it, o, args, kw)
    if name == 'zfill':
        ps = S.parts_of(o)
        w = args[0]
        if len(ps) == 1 and ps[0].kind == 'int' and isinstance(w, int):
            return format_spec(it, Sym('int', ps[0].e), f'0{w}d')
        raise Unsupported('zfill')
    if name == 'removeprefix':
        if ctx.branch(S.startswith(ctx, o, args[0])):
            n = S.length(args[0])
            return S.slice_(ctx, o, n, None)
        return o
    if name == 'encode':
        raise Unsupported('encode')
    raise Unsupported('str.' + name)


def str_format(it, o, args, kw):
    if not isinstance(o, str):
        raise Unsupported('format of symbolic template')
    import string
    out = ''
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(o):
        out = S.concat(out, lit)
        if field is None:
            continue
        if conv or '.' in field or '[' in field:
            raise Unsupported('format field')
        if field == '':
            v = args[auto]
            auto += 1
        elif field.isdigit():
            v = args[int(field)]
        else:
            v = kw[field]
        if not is_symbolic(v):
            out = S.concat(out, format(to_native(v), spec))
        elif not spec:
            out = S.concat(out, to_str(it, v))
        else:
            out = S.concat(out, format_spec(it, v, spec))
    return out


def percent_format(it, tmpl, arg):
    if not is_symbolic(arg):
        try:
            return tmpl % to_native(arg)
        except Exception as e:
            raise PyRaise(e)
    args = list(arg) if isinstance(arg, tuple) else [arg]
    out, pos, k = '', 0, 0
    for m in re.finditer(r'%(%|(0?)(\d*)(\.?)([ids]))', tmpl):
        if '%' in tmpl[pos:m.start()]:
            raise Unsupported('% formatting')
        out = S.concat(out, tmpl[pos:m.start()])
        pos = m.end()
        if m.group(1) == '%':
            out = S.concat(out, '%')
            continue
        v = args[k]
        k += 1
        if m.group(5) == 's':
            if m.group(3) or m.group(4):
                raise Unsupported('% formatting')
            out = S.concat(out, to_str(it, v))
        elif not is_symbolic(v):
            out = S.concat(out, m.group(0) % v)
        elif not (isinstance(v, Sym) and v.k == 'int'):
            raise Unsupported('% formatting of a ' + str(getattr(v, 'k', type(v))))
        elif m.group(3):
            out = S.concat(out, format_spec(it, v, m.group(2) + m.group(3) + 'd'))
        else:
            out = S.concat(out, to_str(it, v))
    if '%' in tmpl[pos:] or k != len(args):
        raise Unsupported('% formatting')
    return S.concat(out, tmpl[pos:])


MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'add', 'discard', 'update',
            'setdefault', 'popitem'}


def list_method(it, o, name, args, kw):
    x = o.items
    if name in MUTATORS:
        it.mutlog.append(o)
    if name == 'append':
        x.append(args[0])
        return None
    if name == 'extend':
        x.extend(list(it.iter_concrete(args[0])))
        return None
    if name == 'insert':
        i = args[0]
        if isinstance(i, Sym):
            i = it.concretize_index(i, len(x))
        x.insert(i, args[1])
        return None
    if name == 'pop':
        i = args[0] if args else -1
        if isinstance(i, Sym):
            i = it.concretize_index(i, len(x))
        try:
            return x.pop(i)
        except IndexError as e:
            raise PyRaise(e)
    if name == 'remove':
        for i, y in enumerate(x):
            if it.ctx.branch(it.eq(y, args[0])):
                x.pop(i)
                return None
        raise PyRaise(ValueError('list.remove(x): x not in list'))
    if name == 'clear':
        x.clear()
        return None
    if name == 'index':
        for i, y in enumerate(x):
            if it.ctx.branch(it.eq(y, args[0])):
                return i
        raise PyRaise(ValueError('not in list'))
    if name == 'count':
        n = 0
        for y in x:
            e = it.eq(y, args[0])
            n = it.binop('+', n, (1 if e else 0) if isinstance(e, bool) else Sym('int', z3.If(e, 1, 0)))
        return n
    if name == 'copy':
        return VList(x)
    if name == 'reverse':
        x.reverse()
        return None
    if name == 'sort':
        o.items[:] = sort_items(it, list(x), kw)
        return None
    raise Unsupported('list.' + name)


def symlist_method(it, o, name, args, kw):
    if name == 'append':
        it.mutlog.append(o)
        n = o.n
        # previously materialised entries stay; the new one sits at index n
        o.entries.append([n, args[0]])
        o.n = n + 1
        return None
    if name == 'copy':
        return i_list(it, [o], {})
    raise Unsupported('unbounded list.' + name)


def dict_method(it, o, name, args, kw):
    if name == 'get':
        return it.dict_get(o, args[0], args[1] if len(args) > 1 else None)
    if name == 'setdefault':
        if it.dict_has(o, args[0]):
            return it.dict_get(o, args[0])
        v = args[1] if len(args) > 1 else None
        it.dict_set(o, args[0], v)
        return v
    if name == 'pop':
        it.mutlog.append(o)
        if it.dict_has(o, args[0]):
            return it.dict_del(o, args[0])
        if len(args) > 1:
            return args[1]
        raise PyRaise(KeyError(args[0]))
    if isinstance(o, SymMap):
        raise Unsupported('unbounded dict.' + name)
    if name == 'items':
        return VList([(k, v) for k, v in o.entries])
    if name == 'keys':
        return VList([k for k, _ in o.entries])
    if name == 'values':
        return VList([v for _, v in o.entries])
    if name == 'copy':
        return VDict([list(e) for e in o.entries])
    if name == 'clear':
        it.mutlog.append(o)
        o.entries.clear()
        return None
    if name == 'update':
        src = args[0] if args else VDict()
        pairs = src.entries if isinstance(src, VDict) else list(src.items()) if isinstance(src, dict) else None
        if pairs is None:
            raise Unsupported('dict.update')
        for k, v in list(pairs):
            it.dict_set(o, k, v)
        for k, v in kw.items():
            it.dict_set(o, k, v)
        return None
    raise Unsupported('dict.' + name)


def set_method(it, o, name, args, kw):
    if name in MUTATORS:
        it.mutlog.append(o)
    if name == 'add':
        if not it.ctx.branch(it.contains(o, args[0])):
            o.items.append(args[0])
        return None
    if name in ('discard', 'remove'):
        for i, x in enumerate(o.items):
            if it.ctx.branch(it.eq(x, args[0])):
                o.items.pop(i)
                return None
        if name == 'remove':
            raise PyRaise(KeyError(args[0]))
        return None
    if name == 'copy':
        return VSet(o.items)
    if not anysym([o]) and not anysym(args):
        s = to_native(o)
        r = native(it, getattr(s, name), args, kw)
        o.items = list(s)
        return r
    raise Unsupported('set.' + name)


def match_method(it, m, name, args, kw):
    if name == 'group':
        if not args:
            return m.groups[0]
        if len(args) == 1:
            i = args[0]
            if isinstance(i, str):
                if i not in m.names:
                    raise Unsupported('named group')
                i = m.names[i]
            try:
                return m.groups[i]
            except IndexError as e:
                raise PyRaise(e)
        return tuple(m.groups[i] for i in args)
    if name == 'groups':
        return tuple(m.groups[1:])
    raise Unsupported('match.' + name)
