"""String domain: ropes over z3 strings, and regular expressions on them."""
from __future__ import annotations
import re
import re._parser as sre_parse
import re._constants as sc
import z3
from .values import Sym, Part, LazySplit, RegexMatch, Unsupported, PyRaise

DIGITS = frozenset('0123456789')
WS = ''.join(chr(i) for i in range(0x3001) if chr(i).isspace())       # all of Python's white space

REP = z3.Function('rep', z3.IntSort(), z3.IntSort(), z3.StringSort())
LOWER = z3.Function('str.lower', z3.StringSort(), z3.StringSort())
UPPER = z3.Function('str.upper', z3.StringSort(), z3.StringSort())


def is_str(v):
    return isinstance(v, str) or (isinstance(v, Sym) and v.k in ('str', 'char'))


def part_z(p):
    if p.kind == 'lit':
        return z3.StringVal(p.text)
    if p.kind == 'chr':
        return z3.StrFromCode(p.e)
    if p.kind == 'int':
        return z3.IntToStr(p.e)
    if p.kind == 'rep':
        return REP(z3.IntVal(ord(p.text)), p.e)
    return p.e


def parts_of(v):
    if isinstance(v, str):
        return [Part('lit', v)] if v else []
    if v.k == 'char':
        return [Part('chr', e=v.e)]
    if v.parts is not None:
        return v.parts
    return [Part('opq', e=v.e)]


def mk(parts):
    out = []
    for p in parts:
        if p.kind == 'lit':
            if not p.text:
                continue
            if out and out[-1].kind == 'lit':
                out[-1] = Part('lit', out[-1].text + p.text)
                continue
        out.append(p)
    if not out:
        return ''
    if len(out) == 1:
        p = out[0]
        if p.kind == 'lit':
            return p.text
        if p.kind == 'chr':
            return Sym('char', p.e)
        return Sym('str', part_z(p), parts=out, seqkey=p.e.sexpr() if p.kind == 'opq' else None)
    return Sym('str', z3.Concat(*[part_z(p) for p in out]), parts=out)


def zstr(v):
    if isinstance(v, str):
        return z3.StringVal(v)
    if v.k == 'char':
        return z3.StrFromCode(v.e)
    return v.e


def length(v):
    if isinstance(v, str):
        return len(v)
    if v.k == 'char':
        return 1
    n = 0
    for p in parts_of(v):
        if p.kind == 'lit':
            n = n + len(p.text)
        elif p.kind == 'chr':
            n = n + 1
        elif p.kind == 'rep':
            n = n + p.e
        else:
            n = n + z3.Length(part_z(p))
    return n


def concat(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a + b
    return mk(parts_of(a) + parts_of(b))


def repeat(ctx, s, n):
    if not isinstance(n, Sym):
        if isinstance(s, str):
            return s * int(n)
        out = []
        for _ in range(max(0, int(n))):
            out += parts_of(s)
        return mk(out)
    if isinstance(s, str) and len(s) == 1:
        if not ctx.branch(n.e > 0):
            return ''
        return mk([Part('rep', s, n.e)])
    if isinstance(s, str) and len(s) == 0:
        return ''
    raise Unsupported('string repetition by a symbolic count')


def charset_has(p, ch):
    """can part p contain character ch?  True / False / None(unknown)"""
    if p.kind == 'lit':
        return ch in p.text
    if p.kind == 'int':
        return None if ch in DIGITS else False
    if p.kind == 'rep':
        return None if ch == p.text else False
    if p.kind == 'opq':
        if p.excl and ch in p.excl:
            return False
        if p.only is not None and ch not in p.only:
            return False
        return None
    return None


def _literal_only(needle, ps):
    """the literal texts of ps when nothing else in it can hold a part of an occurrence of needle, else None"""
    for p in ps:
        if p.kind != 'lit' and not (p.kind == 'int' or p.kind == 'opq' and p.nonempty):
            return None
        if p.kind != 'lit' and any(charset_has(p, c) is not False for c in needle):
            return None
    return [p.text for p in ps if p.kind == 'lit']


def contains(ctx, needle, hay):
    """needle in hay -> bool or z3 Bool"""
    if isinstance(needle, str) and isinstance(hay, str):
        return needle in hay
    if isinstance(needle, str) and needle == '':
        return True
    if isinstance(needle, Sym) and needle.k == 'char' and isinstance(hay, str):
        return z3.Or(*[needle.e == ord(c) for c in dict.fromkeys(hay)]) if hay else False
    if isinstance(needle, str) and len(needle) == 1:
        conds = []
        for p in parts_of(hay):
            if p.kind == 'lit':
                if needle in p.text:
                    return True
            elif p.kind == 'chr':
                conds.append(p.e == ord(needle))
            else:
                h = charset_has(p, needle)
                if h is False:
                    continue
                if p.kind == 'rep':
                    conds.append(p.e > 0)
                else:
                    conds.append(z3.Contains(part_z(p), z3.StringVal(needle)))
        if not conds:
            return False
        return z3.Or(*conds) if len(conds) > 1 else conds[0]
    if isinstance(needle, str):
        r = _literal_only(needle, parts_of(hay))
        if r is not None:
            return any(needle in t for t in r)
    if isinstance(needle, Sym) and isinstance(hay, Sym) and hay.k == 'char':
        # substring of a single char
        return z3.Or(zstr(needle) == z3.StringVal(''), zstr(needle) == zstr(hay))
    return z3.Contains(zstr(hay), zstr(needle))


def eq(ctx, a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, str):
        a, b = b, a
    # a symbolic
    if a.k == 'char':
        if isinstance(b, str):
            return a.e == ord(b) if len(b) == 1 else False
        if b.k == 'char':
            return a.e == b.e
        return zstr(a) == zstr(b)
    if isinstance(b, Sym) and b.k == 'char':
        return zstr(a) == zstr(b)
    if isinstance(b, Sym) and a.e.eq(b.e):
        return True
    pa = parts_of(a)
    if isinstance(b, Sym):
        pb = parts_of(b)
        r = _rope_eq(pa, pb)
        if r is not None:
            return r
        return a.e == b.e
    if len(pa) == 1:
        p = pa[0]
        if p.kind == 'int':
            if not b or not all(c in DIGITS for c in b) or (len(b) > 1 and b[0] == '0'):
                return False
            return p.e == int(b)
        if p.kind == 'rep':
            if any(c != p.text for c in b):
                return False
            return p.e == len(b)
    # quick refutations / decompositions
    if any(p.kind in ('int', 'rep') for p in pa):
        r = _rope_eq(pa, parts_of(b))
        if r is not None:
            return r
        r = _match_const(ctx, pa, b)
        if r is not None:
            return r
    else:
        # strip common literal ends
        pp = list(pa)
        bb = b
        while pp and pp[0].kind == 'lit':
            if not bb.startswith(pp[0].text):
                return False
            bb = bb[len(pp[0].text):]
            pp.pop(0)
        while pp and pp[-1].kind == 'lit':
            if not bb.endswith(pp[-1].text):
                return False
            bb = bb[:-len(pp[-1].text)]
            pp.pop()
        if len(pp) == 1 and pp[0].kind == 'opq':
            return pp[0].e == z3.StringVal(bb)
    return a.e == z3.StringVal(b)


def _rope_eq(pa, pb):
    """Exact structural equality when both ropes have the same shape; None if not applicable."""
    if len(pa) != len(pb):
        return None
    conds = []
    for i, (p, q) in enumerate(zip(pa, pb)):
        if p.kind != q.kind:
            return None
        if p.kind == 'lit':
            if p.text != q.text:
                return None
        elif p.kind == 'int':
            conds.append(p.e == q.e)
            if len(pa) > i + 1 and pa[i + 1].kind not in ('lit', 'rep'):
                return None
            if len(pa) > i + 1 and pa[i + 1].kind in ('lit', 'rep') and pa[i + 1].text[0] in DIGITS:
                return None
        elif p.kind == 'rep':
            if p.text != q.text:
                return None
            conds.append(p.e == q.e)
            for r in (pa[i + 1:i + 2] + pb[i + 1:i + 2]):
                if r.kind != 'lit' or r.text[0] == p.text:
                    return None
        elif p.kind == 'opq':
            if not p.e.eq(q.e):
                return None
        elif p.kind == 'chr':
            conds.append(p.e == q.e)
    if not conds:
        return True
    return z3.And(*conds) if len(conds) > 1 else conds[0]


def _match_const(ctx, pa, b):
    """rope (lit/int/rep parts only) == constant, by regex-free left to right matching."""
    if any(p.kind not in ('lit', 'int', 'rep') for p in pa):
        return None
    conds = []
    i = 0
    for j, p in enumerate(pa):
        if p.kind == 'lit':
            if not b.startswith(p.text, i):
                return False
            i += len(p.text)
        elif p.kind == 'int':
            nxt = pa[j + 1] if j + 1 < len(pa) else None
            if nxt is not None and (nxt.kind == 'int' or (nxt.text and nxt.text[0] in DIGITS)):
                return None
            k = i
            while k < len(b) and b[k] in DIGITS:
                k += 1
            t = b[i:k]
            if not t or (len(t) > 1 and t[0] == '0'):
                return False
            conds.append(p.e == int(t))
            i = k
        else:
            nxt = pa[j + 1] if j + 1 < len(pa) else None
            if nxt is not None and (nxt.kind == 'int' and p.text in DIGITS):
                return None
            if nxt is not None and nxt.kind in ('lit', 'rep') and nxt.text[0] == p.text:
                return None
            k = i
            while k < len(b) and b[k] == p.text:
                k += 1
            conds.append(p.e == k - i)
            i = k
    if i != len(b):
        return False
    return z3.And(*conds) if conds else True


def startswith(ctx, s, pre):
    if isinstance(s, str) and isinstance(pre, str):
        return s.startswith(pre)
    if isinstance(pre, str):
        if pre == '':
            return True
        ps = parts_of(s)
        if not ps:
            return False
        p = ps[0]
        if p.kind == 'lit':
            if len(p.text) >= len(pre):
                return p.text.startswith(pre)
            if not pre.startswith(p.text):
                return False
            return startswith(ctx, mk(ps[1:]), pre[len(p.text):])
        if p.kind == 'chr':
            rest = startswith(ctx, mk(ps[1:]), pre[1:])
            c = p.e == ord(pre[0])
            return z3.And(c, rest) if not isinstance(rest, bool) else (c if rest else False)
        if p.kind == 'int':
            if pre[0] not in DIGITS:
                return False
            if len(pre) == 1:
                if pre == '0':
                    return p.e == 0
        if p.kind == 'rep':
            if all(c == p.text for c in pre) and len(ps) == 1:
                return p.e >= len(pre)
            if len(pre) == 1:
                if ctx.branch(p.e > 0):
                    return pre == p.text
                return startswith(ctx, mk(ps[1:]), pre)
        if p.kind == 'opq' and p.nonempty and charset_has(p, pre[0]) is False:
            return False
        if p.kind == 'opq' and len(ps) == 1:
            if charset_has(p, pre[0]) is False:
                return False
            return z3.PrefixOf(z3.StringVal(pre), p.e)
        if p.kind == 'opq' and charset_has(p, pre[0]) is False:
            if ctx.branch(z3.Length(p.e) > 0):
                return False
            return startswith(ctx, mk(ps[1:]), pre)
    return z3.PrefixOf(zstr(pre), zstr(s))


def endswith(ctx, s, suf):
    if isinstance(s, str) and isinstance(suf, str):
        return s.endswith(suf)
    if isinstance(suf, str):
        if suf == '':
            return True
        ps = parts_of(s)
        if not ps:
            return False
        p = ps[-1]
        if p.kind == 'lit' and len(p.text) >= len(suf):
            return p.text.endswith(suf)
        if p.kind == 'rep' and len(suf) == 1 and p.text == suf:
            if ctx.branch(p.e > 0):
                return True
            return endswith(ctx, mk(ps[:-1]), suf)
    return z3.SuffixOf(zstr(suf), zstr(s))


def chr_fn(seqkey):
    return z3.Function('chr_at<%s>' % seqkey, z3.IntSort(), z3.IntSort())


def char_at(ctx, s, idx):
    """s[idx] for z3 Int idx known to be in range; s an opaque string."""
    key = s.seqkey or s.e.sexpr()
    c = chr_fn(key)(idx)
    k = ('chr', key, str(idx))
    if k not in ctx.memo:
        ctx.memo[k] = True
        ctx.assume(z3.And(c >= 0, c <= 0x10FFFF))
    return Sym('char', c)


def peel_chars(ctx, s):
    """the characters of a rope one by one (branching on its length): yields (char, is it fixed by the text)"""
    for p in parts_of(s):
        if p.kind == 'lit':
            for c in p.text:
                yield c, True
            continue
        if p.kind == 'chr':
            yield Sym('char', p.e), True
            continue
        if p.kind == 'rep' and len(p.text) == 1:
            i = 0
            while ctx.branch(p.e > i):
                yield p.text, False
                i += 1
            continue
        if p.kind != 'opq':
            raise Unsupported('peeling a rope part')
        e, first = p.e, p.nonempty
        while first or ctx.branch(z3.Length(e) > 0):
            first = False
            key = ('peel', str(e))
            if key in ctx.memo:
                c, rest = ctx.memo[key]
            else:
                c, rest = ctx.fresh_int('pc'), ctx.fresh_str('pr')
                ctx.memo[key] = (c, rest)
                ctx.assume(z3.And(c >= 0, c <= 0x2FFFF))
                ctx.assume(e == z3.Concat(z3.StrFromCode(c), rest))
                for k in sorted(p.excl or ()):
                    ctx.assume(c != ord(k))
                if p.only is not None:
                    ctx.assume(z3.Or(*[c == ord(k) for k in sorted(p.only)]))
            yield Sym('char', c), False
            e = rest


def last_char(ctx, ps):
    for j in range(len(ps) - 1, -1, -1):
        p = ps[j]
        if p.kind == 'lit':
            return p.text[-1]
        if p.kind == 'chr':
            return Sym('char', p.e)
        if p.kind != 'opq' or (p.excl is None and p.only is None):
            return None
        if not p.nonempty and not ctx.branch(z3.Length(p.e) > 0):
            continue
        key = ('last', p.e.sexpr())
        if key not in ctx.memo:
            c, init = ctx.fresh_int('lc'), ctx.fresh_str('li')
            ctx.memo[key] = c
            ctx.assume(z3.And(c >= 0, c <= 0x2FFFF))
            ctx.assume(p.e == z3.Concat(init, z3.StrFromCode(c)))
            for k in sorted(p.excl or ()):
                ctx.assume(c != ord(k))
            if p.only is not None:
                ctx.assume(z3.Or(*[c == ord(k) for k in sorted(p.only)]))
        return Sym('char', ctx.memo[key])
    return None


def first_digit(ctx, e):
    key = ('digit0', str(e))
    if key not in ctx.memo:
        c = ctx.fresh_int('digit')
        ctx.assume(z3.And(c >= 48, c <= 57, (c == 48) == (e == 0),
                          z3.Implies(z3.And(e >= 0, e <= 9), c == 48 + e)))
        ctx.memo[key] = c
    return Sym('char', ctx.memo[key])


def fixed_chars(ps):
    out = []
    for p in ps:
        out.extend(p.text if p.kind == 'lit' else [Sym('char', p.e)])
    return out


def index(ctx, s, i):
    if isinstance(s, str) and not isinstance(i, Sym):
        try:
            return s[i]
        except IndexError as e:
            raise PyRaise(e)
    if isinstance(s, Sym) and s.k == 'char':
        if isinstance(i, Sym):
            raise Unsupported('symbolic index into a character')
        if i in (0, -1):
            return s
        raise PyRaise(IndexError('string index out of range'))
    if not isinstance(i, Sym):
        ps = parts_of(s)
        if all(p.kind in ('lit', 'chr') for p in ps):
            cs = fixed_chars(ps)
            try:
                return cs[i]
            except IndexError as e:
                raise PyRaise(IndexError('string index out of range'))
        if i >= 0:
            j = i
            for p in ps:
                if p.kind == 'lit':
                    if j < len(p.text):
                        return p.text[j]
                    j -= len(p.text)
                elif p.kind == 'chr':
                    if j == 0:
                        return Sym('char', p.e)
                    j -= 1
                elif p.kind == 'int' and j == 0:
                    return first_digit(ctx, p.e)
                elif p.kind == 'rep' and not isinstance(p.e, int):
                    if ctx.branch(p.e > j):
                        return p.text
                    if j == 0:
                        continue
                    break
                else:
                    break
            if i == 0 and len(ps) > 1 and ps[0].kind == 'opq' and ps[0].nonempty:
                return Sym('char', z3.StrToCode(z3.SubString(ps[0].e, 0, 1)))
        else:
            if ps and ps[-1].kind == 'lit' and -i <= len(ps[-1].text):
                return ps[-1].text[i]
            if i == -1 and ps and ps[-1].kind == 'chr':
                return Sym('char', ps[-1].e)
            if i == -1:
                c = last_char(ctx, ps)
                if c is not None:
                    return c
        n = length(s)
        if i >= 0:
            ok = n > i
            pos = z3.IntVal(i)
        else:
            ok = n >= -i
            pos = z3.simplify(n + i)
        if not ctx.branch(ok):
            raise PyRaise(IndexError('string index out of range'))
        c = z3.StrToCode(z3.SubString(s.e, pos, 1))
        ctx.assume(c >= 0)
        return Sym('char', c)
    if isinstance(s, str):
        # concrete string, symbolic index: case split
        n = len(s)
        conds = [i.e == j for j in range(-n, n)]
        conds.append(z3.Or(i.e < -n, i.e >= n))
        c = ctx.choose(conds)
        if c == 2 * n:
            raise PyRaise(IndexError('string index out of range'))
        return s[range(-n, n)[c]]
    ps = parts_of(s)
    if all(p.kind in ('lit', 'chr') for p in ps):
        cs = fixed_chars(ps)
        n = len(cs)
        conds = [i.e == j for j in range(-n, n)]
        conds.append(z3.Or(i.e < -n, i.e >= n))
        c = ctx.choose(conds)
        if c == 2 * n:
            raise PyRaise(IndexError('string index out of range'))
        return cs[range(-n, n)[c]]
    n = length(s)
    if ctx.branch(z3.And(i.e >= 0, i.e < n)):
        return char_at(ctx, s, i.e)
    if ctx.branch(z3.And(i.e < 0, i.e >= -n)):
        return char_at(ctx, s, n + i.e)
    raise PyRaise(IndexError('string index out of range'))


def _inherit(src_parts, e, nonempty=False):
    """an opaque part for a piece of src_parts: its characters are among theirs"""
    only, excl = set(), None                  # allowed: only (excl is None), or everything but excl
    for p in src_parts:
        if p.kind in ('lit', 'rep'):
            a, x = set(p.text), None
        elif p.kind == 'int':
            a, x = set(DIGITS), None
        elif p.kind == 'opq' and p.only is not None:
            a, x = set(p.only), None
        elif p.kind == 'opq' and p.excl is not None:
            a, x = set(), set(p.excl)
        else:
            return Part('opq', e=e, nonempty=nonempty)
        if excl is None and x is None:
            only |= a
        elif excl is None:
            excl = x - only
        elif x is None:
            excl -= a
        else:
            excl &= x
    if excl is None:
        return Part('opq', e=e, only=frozenset(only), nonempty=nonempty)
    return Part('opq', e=e, excl=excl, nonempty=nonempty)


def cut_at(ps, e):
    """split a rope at a position that is, as a term, the end of one of its parts (or inside a literal)"""
    pos = z3.IntVal(0)
    for i, p in enumerate(ps):
        d = z3.simplify(e - pos, som=True)
        if z3.is_int_value(d):
            d = d.as_long()
            if d == 0:
                return list(ps[:i]), list(ps[i:])
            if d < 0:
                return None
            if p.kind == 'lit' and d < len(p.text):
                return list(ps[:i]) + [Part('lit', p.text[:d])], [Part('lit', p.text[d:])] + list(ps[i + 1:])
        pos = pos + length(mk([p]))
    d = z3.simplify(e - pos, som=True)
    if z3.is_int_value(d) and d.as_long() == 0:
        return list(ps), []
    return None


def slice_(ctx, s, a, b, step=None):
    if step not in (None, 1):
        if isinstance(s, str) and not any(isinstance(x, Sym) for x in (a, b, step)):
            return s[a:b:step]
        raise Unsupported('slice step')
    if isinstance(s, str) and not isinstance(a, Sym) and not isinstance(b, Sym):
        return s[a:b]
    if isinstance(s, Sym) and s.k == 'char':
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            r = range(1)[a:b]
            return s if len(r) else ''
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        ps = list(parts_of(s))
        if (a is None or a >= 0):
            # drop a leading characters structurally
            k = a or 0
            ok = True
            pp = list(ps)
            while k > 0 and pp:
                p = pp[0]
                if p.kind == 'lit':
                    if len(p.text) > k:
                        pp[0] = Part('lit', p.text[k:])
                        k = 0
                    else:
                        k -= len(p.text)
                        pp.pop(0)
                elif p.kind == 'chr':
                    k -= 1
                    pp.pop(0)
                else:
                    ok = False
                    break
            if ok:
                if b is None:
                    return mk(pp)
                if b < 0:
                    k = -b
                    while k > 0 and pp:
                        p = pp[-1]
                        if p.kind == 'lit':
                            if len(p.text) > k:
                                pp[-1] = Part('lit', p.text[:-k])
                                k = 0
                            else:
                                k -= len(p.text)
                                pp.pop()
                        elif p.kind == 'chr':
                            k -= 1
                            pp.pop()
                        else:
                            break
                    if k == 0:
                        return mk(pp)
                else:
                    k = b - (a or 0)
                    out = []
                    while k > 0 and pp:
                        p = pp[0]
                        if p.kind == 'lit':
                            out.append(Part('lit', p.text[:k]))
                            if len(p.text) > k:
                                k = 0
                            else:
                                k -= len(p.text)
                                pp.pop(0)
                        elif p.kind == 'chr':
                            out.append(p)
                            k -= 1
                            pp.pop(0)
                        elif p.kind == 'int' and k == 1:
                            out.append(Part('chr', e=first_digit(ctx, p.e).e))
                            k = 0
                        else:
                            break
                    if k <= 0 or not pp:
                        return mk(out)
        elif b is None and a < 0:
            k = -a
            out = []
            pp = list(ps)
            while k > 0 and pp:
                p = pp[-1]
                if p.kind == 'lit':
                    out.insert(0, Part('lit', p.text[-k:]))
                    if len(p.text) >= k:
                        k = 0
                    else:
                        k -= len(p.text)
                        pp.pop()
                elif p.kind == 'chr':
                    out.insert(0, p)
                    k -= 1
                    pp.pop()
                else:
                    break
            if k <= 0 or not pp:
                return mk(out)
    if isinstance(s, Sym) and s.k == 'str':
        pp = parts_of(s)
        if b is not None and isinstance(b, Sym):
            c = cut_at(pp, b.e)
            if c is not None:
                return slice_(ctx, mk(c[0]), a, None) if a is not None else mk(c[0])
        if b is None and isinstance(a, Sym):
            c = cut_at(pp, a.e)
            if c is not None:
                return mk(c[1])
    n = length(s)

    def norm(x, default):
        if x is None:
            return default
        e = x.e if isinstance(x, Sym) else x
        if isinstance(e, int):
            if e >= 0:
                return z3.If(n < e, n, z3.IntVal(e)) if not isinstance(n, int) else min(n, e)
            return z3.If(n + e < 0, 0, n + e)
        e = z3.If(e < 0, e + n, e)
        e = z3.If(e < 0, 0, e)
        return z3.If(e > n, n, e)
    lo = norm(a, 0)
    hi = norm(b, n)
    e = z3.simplify(z3.SubString(zstr(s), lo, hi - lo))
    return Sym('str', e, parts=[_inherit(parts_of(s), e)], seqkey=e.sexpr())


def next_piece(ctx, ls):
    """Advance a LazySplit by one piece.  Returns False when there are no more."""
    if ls.rest is None:
        return False
    if ls.left == 0:
        ls.done.append(ls.rest)
        ls.rest = None
        return True
    sep = ls.sep
    s = ls.rest
    if isinstance(s, str) and isinstance(sep, str):
        a, found, b = s.partition(sep)
        ls.done.append(a)
        ls.rest = b if found else None
        if ls.left is not None:
            ls.left -= 1
        return True
    ps = parts_of(s)
    if not isinstance(sep, str):
        raise Unsupported('split on a symbolic separator')
    if len(sep) != 1:
        if len(ps) == 1 and ps[0].kind == 'opq':
            p = ps[0]
            if not ctx.branch(z3.Contains(p.e, z3.StringVal(sep))):
                ls.done.append(s)
                ls.rest = None
                return True
            h, t = ctx.fresh_str('head'), ctx.fresh_str('tail')
            ctx.assume(p.e == z3.Concat(h, z3.StringVal(sep), t))
            ctx.assume(z3.IndexOf(p.e, z3.StringVal(sep), 0) == z3.Length(h))
            ls.done.append(mk([Part('opq', e=h, excl=p.excl)]))
            ls.rest = mk([Part('opq', e=t, excl=p.excl)])
            if ls.left is not None:
                ls.left -= 1
            return True
        if _literal_only(sep, ps) is not None:
            head = []
            for i, p in enumerate(ps):
                if p.kind == 'lit' and sep in p.text:
                    a, _, b = p.text.partition(sep)
                    ls.done.append(mk(head + [Part('lit', a)]))
                    ls.rest = mk([Part('lit', b)] + ps[i + 1:])
                    if ls.left is not None:
                        ls.left -= 1
                    return True
                head.append(p)
            ls.done.append(s)
            ls.rest = None
            return True
        raise Unsupported('split on a long separator')
    head = []
    for i, p in enumerate(ps):
        if p.kind == 'lit':
            if sep in p.text:
                a, _, b = p.text.partition(sep)
                head.append(Part('lit', a))
                ls.done.append(mk(head))
                ls.rest = mk([Part('lit', b)] + ps[i + 1:])
                if ls.left is not None:
                    ls.left -= 1
                return True
            head.append(p)
            continue
        if p.kind == 'chr':
            if ctx.branch(p.e == ord(sep)):
                ls.done.append(mk(head))
                ls.rest = mk(ps[i + 1:])
                if ls.left is not None:
                    ls.left -= 1
                return True
            head.append(p)
            continue
        if charset_has(p, sep) is False:
            head.append(p)
            continue
        if p.kind != 'opq':
            raise Unsupported('split inside a repeated block')
        if not ctx.branch(z3.Contains(p.e, z3.StringVal(sep))):
            head.append(Part('opq', e=p.e, excl=frozenset(p.excl or ()) | {sep}, only=p.only,
                             nonempty=p.nonempty))
            continue
        key = ('split', p.e.sexpr(), sep)
        if key in ctx.memo:
            h, t = ctx.memo[key]
        else:
            h, t = ctx.fresh_str('head'), ctx.fresh_str('tail')
            ctx.memo[key] = (h, t)
            ctx.assume(p.e == z3.Concat(h, z3.StringVal(sep), t))
            ctx.assume(z3.Not(z3.Contains(h, z3.StringVal(sep))))
        ex = frozenset(p.excl or ())
        head.append(Part('opq', e=h, excl=ex | {sep}, only=p.only))
        ls.done.append(mk(head))
        ls.rest = mk([Part('opq', e=t, excl=ex, only=p.only)] + ps[i + 1:])
        if ls.left is not None:
            ls.left -= 1
        return True
    ls.done.append(mk(head))
    ls.rest = None
    return True


COUNT = z3.Function('str.count', z3.StringSort(), z3.StringSort(), z3.IntSort())


def count(ctx, s, needle):
    if isinstance(s, str) and isinstance(needle, str):
        return s.count(needle)
    if not (isinstance(needle, str) and len(needle) == 1):
        raise Unsupported('count of a long or symbolic needle')
    total = 0
    for p in parts_of(s):
        if p.kind == 'lit':
            total = total + p.text.count(needle)
        elif p.kind == 'chr':
            total = total + z3.If(p.e == ord(needle), 1, 0)
        elif p.kind == 'rep':
            if p.text == needle:
                total = total + p.e
        elif charset_has(p, needle) is False:
            continue
        else:
            c = COUNT(part_z(p), z3.StringVal(needle))
            ctx.assume(z3.And(c >= 0, c <= z3.Length(part_z(p)),
                              (c > 0) == z3.Contains(part_z(p), z3.StringVal(needle))))
            total = total + c
    return total if isinstance(total, int) else Sym('int', total)


def replace(ctx, s, old, new):
    if all(isinstance(x, str) for x in (s, old, new)):
        return s.replace(old, new)
    if not isinstance(old, str) or not isinstance(new, str):
        raise Unsupported('replace with symbolic pattern')
    if len(old) == 1:
        out = []
        for p in parts_of(s):
            if p.kind == 'lit':
                out.append(Part('lit', p.text.replace(old, new)))
            elif p.kind == 'chr':
                if ctx.branch(p.e == ord(old)):
                    out.append(Part('lit', new))
                else:
                    out.append(p)
            elif p.kind == 'int' or charset_has(p, old) is False:
                if p.kind == 'int' and old in DIGITS:
                    raise Unsupported('replace digit')
                out.append(p)
            elif p.kind == 'rep':
                if len(new) == 1:
                    out.append(Part('rep', new, p.e))
                elif new == '':
                    pass
                else:
                    raise Unsupported('replace in rep')
            else:
                f = z3.Function('str.replace_all<%s|%s>' % (old, new), z3.StringSort(), z3.StringSort())
                if ctx.branch(z3.Contains(p.e, z3.StringVal(old))):
                    e = f(p.e)
                    ex = set(p.excl or ())
                    ex -= set(new)
                    if old not in new:
                        ex |= {old}
                    if len(new) == 1:
                        ctx.assume(z3.Length(e) == z3.Length(p.e))
                    out.append(Part('opq', e=e, excl=frozenset(ex), nonempty=len(new) > 0))
                else:
                    out.append(Part('opq', e=p.e, excl=frozenset(p.excl or ()) | {old}, only=p.only,
                                    nonempty=p.nonempty))
        return mk(out)
    ps = parts_of(s)
    # longer pattern: each part that cannot contain old[0] is a barrier
    if all(p.kind in ('lit', 'opq', 'int') for p in ps):
        for i, p in enumerate(ps):
            if p.kind == 'opq' and charset_has(p, old[0]) is None:
                if len(ps) == 1:
                    f = z3.Function('str.replace_all<%s|%s>' % (old, new), z3.StringSort(), z3.StringSort())
                    if ctx.branch(z3.Contains(p.e, z3.StringVal(old))):
                        return Sym('str', f(p.e), seqkey=f(p.e).sexpr())
                    return s
                raise Unsupported('replace long pattern')
        # every opq part excludes old[0]; a match could still run from a literal into an opq part
        for i, p in enumerate(ps):
            if p.kind == 'lit' and i + 1 < len(ps):
                for k in range(1, len(old)):
                    if p.text.endswith(old[:k]):
                        q = ps[i + 1]
                        if charset_has(q, old[k]) is not False:
                            raise Unsupported('replace across parts')
        return mk([Part('lit', p.text.replace(old, new)) if p.kind == 'lit' else p for p in ps])
    raise Unsupported('replace long pattern')


def strip(ctx, s, chars=None, which='both'):
    if isinstance(s, str) and not isinstance(chars, Sym):
        return {'both': s.strip, 'l': s.lstrip, 'r': s.rstrip}[which](chars)
    cs = WS if chars is None else chars
    if isinstance(cs, Sym):
        raise Unsupported('strip symbolic set')
    ps = list(parts_of(s))

    def clean(p):
        if p.kind == 'int':
            return not (set(cs) & DIGITS)
        if p.kind == 'opq':
            return all(charset_has(p, c) is False for c in cs)
        return False

    def z_in(c):
        return z3.Or(*[c == ord(x) for x in cs])

    def lside():
        while ps:
            p = ps[0]
            if p.kind == 'lit':
                t = p.text.lstrip(cs)
                if t:
                    ps[0] = Part('lit', t)
                    return
                ps.pop(0)
            elif p.kind == 'chr':
                if not ctx.branch(z_in(p.e)):
                    return
                ps.pop(0)
            elif p.kind == 'int':
                return
            elif p.kind == 'rep':
                if p.text not in cs:
                    if ctx.branch(p.e > 0):
                        return
                ps.pop(0)
            elif clean(p):
                if p.nonempty or len(ps) == 1 or ctx.branch(z3.Length(p.e) > 0):
                    return
                ps.pop(0)
            else:
                key = ('lstrip', p.e.sexpr(), cs)
                if key not in ctx.memo:
                    w, r = ctx.fresh_str('ws'), ctx.fresh_str('ls')
                    cls = z3.Union(*[z3.Re(x) for x in cs]) if len(cs) > 1 else z3.Re(cs)
                    ctx.assume(p.e == z3.Concat(w, r))
                    ctx.assume(z3.InRe(w, z3.Star(cls)))
                    ctx.assume(z3.And(*[z3.Not(z3.PrefixOf(z3.StringVal(x), r)) for x in cs]))
                    ctx.memo[key] = r
                r = ctx.memo[key]
                if len(ps) > 1 and not ctx.branch(z3.Length(r) > 0):
                    ps.pop(0)
                    continue
                ps[0] = Part('opq', e=r, excl=p.excl, only=p.only)
                return

    def rside():
        while ps:
            p = ps[-1]
            if p.kind == 'lit':
                t = p.text.rstrip(cs)
                if t:
                    ps[-1] = Part('lit', t)
                    return
                ps.pop()
            elif p.kind == 'chr':
                if not ctx.branch(z_in(p.e)):
                    return
                ps.pop()
            elif p.kind == 'int':
                return
            elif p.kind == 'rep':
                if p.text not in cs:
                    if ctx.branch(p.e > 0):
                        return
                ps.pop()
            elif clean(p):
                if p.nonempty or len(ps) == 1 or ctx.branch(z3.Length(p.e) > 0):
                    return
                ps.pop()
            else:
                key = ('rstrip', p.e.sexpr(), cs)
                if key not in ctx.memo:
                    w, r = ctx.fresh_str('ws'), ctx.fresh_str('rs')
                    cls = z3.Union(*[z3.Re(x) for x in cs]) if len(cs) > 1 else z3.Re(cs)
                    ctx.assume(p.e == z3.Concat(r, w))
                    ctx.assume(z3.InRe(w, z3.Star(cls)))
                    ctx.assume(z3.And(*[z3.Not(z3.SuffixOf(z3.StringVal(x), r)) for x in cs]))
                    ctx.memo[key] = r
                r = ctx.memo[key]
                if len(ps) > 1 and not ctx.branch(z3.Length(r) > 0):
                    ps.pop()
                    continue
                ps[-1] = Part('opq', e=r, excl=p.excl, only=p.only)
                return
    if which in ('both', 'l'):
        lside()
    if which in ('both', 'r'):
        rside()
    return mk(ps)


def lower_code(e, up=False):
    if up:
        return z3.If(z3.And(e >= 97, e <= 122), e - 32,
                     z3.If(e < 128, e, z3.Function('toupper', z3.IntSort(), z3.IntSort())(e)))
    return z3.If(z3.And(e >= 65, e <= 90), e + 32,
                 z3.If(e < 128, e, z3.If(e == 0x212A, 107,
                                         z3.Function('tolower', z3.IntSort(), z3.IntSort())(e))))


def lower(ctx, s, up=False):
    if isinstance(s, str):
        return s.upper() if up else s.lower()
    if s.k == 'char':
        r = lower_code(s.e, up)
        if not up:
            # non-ASCII characters other than U+212A never lower-case to ASCII
            ctx.assume(z3.Implies(z3.And(s.e >= 128, s.e != 0x212A), r >= 128))
        else:
            ctx.assume(z3.Implies(z3.And(s.e >= 128, s.e != 0x131, s.e != 0x17F), r >= 128))
        return Sym('char', r)
    out = []
    for p in parts_of(s):
        if p.kind == 'lit':
            out.append(Part('lit', p.text.upper() if up else p.text.lower()))
        elif p.kind == 'chr':
            out.append(Part('chr', e=lower(ctx, Sym('char', p.e), up).e))
        elif p.kind == 'int':
            out.append(p)
        elif p.kind == 'rep':
            t = p.text.upper() if up else p.text.lower()
            if len(t) != 1:
                raise Unsupported('case change')
            out.append(Part('rep', t, p.e))
        else:
            ctx.memo['uf'] = True
            out.append(Part('opq', e=(UPPER if up else LOWER)(p.e)))
    return mk(out)


def find(ctx, s, sub, start=0):
    if isinstance(s, str) and isinstance(sub, str) and not isinstance(start, Sym):
        return s.find(sub, start)
    if isinstance(s, str) and isinstance(sub, Sym) and sub.k == 'char' and start == 0 and len(s) <= 64:
        r = z3.IntVal(-1)
        for i in range(len(s) - 1, -1, -1):
            r = z3.If(sub.e == ord(s[i]), z3.IntVal(i), r)
        return Sym('int', r)
    st = start.e if isinstance(start, Sym) else z3.IntVal(start)
    return Sym('int', z3.IndexOf(zstr(s), zstr(sub), st))


# ---------------------------------------------------------------- regular expressions

class CharSet:
    """Finite set or its complement."""
    def __init__(self, chars, neg=False):
        self.chars = frozenset(chars)
        self.neg = neg

    def has(self, ch):
        return (ch in self.chars) != self.neg

    def z(self, code):
        c = z3.Or(*[code == ord(x) for x in sorted(self.chars)]) if self.chars else z3.BoolVal(False)
        return z3.Not(c) if self.neg else c

    def re(self):
        if not self.chars:
            r = None
        else:
            rs = [z3.Re(x) for x in sorted(self.chars)]
            r = z3.Union(*rs) if len(rs) > 1 else rs[0]
        if self.neg:
            allc = z3.AllChar(z3.ReSort(z3.StringSort()))
            if r is None:
                return allc
            return z3.Intersect(allc, z3.Complement(r))
        return r


CATS = {
    sc.CATEGORY_DIGIT: DIGITS,
    sc.CATEGORY_SPACE: frozenset(WS),
    sc.CATEGORY_WORD: frozenset('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_'),
}


def in_set(av):
    chars = set()
    neg = False
    for op, a in av:
        if op is sc.NEGATE:
            neg = True
        elif op is sc.LITERAL:
            chars.add(chr(a))
        elif op is sc.RANGE:
            if a[1] - a[0] > 300:
                raise Unsupported('regex range')
            chars.update(chr(x) for x in range(a[0], a[1] + 1))
        elif op is sc.CATEGORY and a in CATS:
            chars.update(CATS[a])
        else:
            raise Unsupported(f'regex set {op}')
    return CharSet(chars, neg)


def linearize(pat):
    """-> list of ('set', CharSet, lo, hi, greedy) | ('open', g) | ('close', g) | ('bol',) | ('eol',)"""
    tree = sre_parse.parse(pat) if isinstance(pat, str) else sre_parse.parse(pat.pattern)
    out = []

    def one(op, av):
        if op is sc.LITERAL:
            return CharSet({chr(av)})
        if op is sc.NOT_LITERAL:
            return CharSet({chr(av)}, True)
        if op is sc.ANY:
            return CharSet({'\n'}, True)
        if op is sc.IN:
            return in_set(av)
        return None

    def walk(items, out):
        for op, av in items:
            s = one(op, av)
            if s is not None:
                out.append(('set', s, 1, 1, True))
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
                lo, hi, sub = av
                sub = list(sub)
                s = one(*sub[0]) if len(sub) == 1 else None
                if s is not None:
                    out.append(('set', s, lo, hi, op is sc.MAX_REPEAT))
                    continue
                seq = walk(sub, [])
                for _ in range(lo):
                    out.extend(seq)
                greedy = op is sc.MAX_REPEAT
                if hi is sc.MAXREPEAT or hi >= 10 ** 6:
                    out.append(('loop', seq, greedy))
                else:
                    opt = []
                    for _ in range(hi - lo):
                        alts = [seq + opt, []]
                        opt = [('alt', alts if greedy else alts[::-1])]
                    out.extend(opt)
            elif op is sc.BRANCH:
                out.append(('alt', [walk(list(x), []) for x in av[1]]))
            elif op is sc.SUBPATTERN:
                g, addf, delf, sub = av
                if addf or delf:
                    raise Unsupported('regex flags')
                if g is not None:
                    out.append(('open', g))
                walk(list(sub), out)
                if g is not None:
                    out.append(('close', g))
            elif op is sc.AT and av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
                out.append(('bol',))
            elif op is sc.AT and av is sc.AT_END:
                out.append(('eol',))
            elif op is sc.AT and av is sc.AT_END_STRING:
                out.append(('eos',))
            else:
                raise Unsupported(f'regex {op}')
        return out
    return walk(list(tree), []), tree.state.groups - 1


def _atoms(ctx, s):
    at = []
    for p in parts_of(s):
        if p.kind == 'lit':
            at += [('c', ch, Part('lit', ch)) for ch in p.text]
        elif p.kind == 'chr':
            at.append(('s', p.e, p))
        elif p.kind == 'int':
            at.append(('blk', CharSet(DIGITS), p))
        elif p.kind == 'rep':
            if ctx.branch(p.e > 0):
                at.append(('blk', CharSet({p.text}), p))
        else:
            if p.only is None and not p.excl:
                raise Unsupported('regex on an unconstrained string')
            if not p.nonempty and not ctx.branch(z3.Length(p.e) > 0):
                continue
            cs = CharSet(p.only) if p.only is not None else CharSet(p.excl, True)
            at.append(('blk', cs, Part('opq', e=p.e, excl=p.excl, only=p.only, nonempty=True)))
    return at


def _rel(cls, blk):
    """relation of character class to a block's charset: 'all' | 'none' | 'mixed'"""
    if not blk.neg:
        h = [cls.has(c) for c in blk.chars]
        if all(h):
            return 'all'
        if not any(h):
            return 'none'
        return 'mixed'
    # block may contain anything but blk.chars
    if cls.neg:
        if cls.chars <= blk.chars:
            return 'all'
        return 'mixed'
    if cls.chars <= blk.chars:
        return 'none'
    return 'mixed'


def rope_search(ctx, pat, s, anchored=False, full=False, start=0):
    """Exact regex search over the atoms of a rope.  Returns RegexMatch-like (groups, i, j, atoms) or None"""
    items, ng = linearize(pat)
    at = s if isinstance(s, list) else _atoms(ctx, s)
    n = len(at)

    def single(cls, a):
        if a[0] == 'c':
            return cls.has(a[1])
        if a[0] == 's':
            return ctx.branch(cls.z(a[1]))
        return None

    def m(items, pi, caps, opens, prog=None):
        if not items:
            if full and pi != n:
                return None
            return pi, caps
        it, rest = items[0], items[1:]
        if it[0] == 'open':
            return m(rest, pi, caps, {**opens, it[1]: pi})
        if it[0] == 'close':
            return m(rest, pi, {**caps, it[1]: (opens[it[1]], pi)}, opens)
        if it[0] == 'alt':
            for seq in it[1]:
                r = m(seq + rest, pi, caps, opens)
                if r is not None:
                    return r
            return None
        if it[0] == 'loop':
            again = [] if len(it) > 3 and it[3] == pi else [it[1] + [('loop', it[1], it[2], pi)] + rest]
            for seq in (again + [rest] if it[2] else [rest] + again):
                r = m(seq, pi, caps, opens)
                if r is not None:
                    return r
            return None
        if it[0] == 'bol':
            return m(rest, pi, caps, opens) if pi == 0 else None
        if it[0] == 'eos':
            return m(rest, pi, caps, opens) if pi == n else None
        if it[0] == 'eol':
            if pi == n:
                return m(rest, pi, caps, opens)
            if pi == n - 1 and at[pi][0] == 'c' and at[pi][1] == '\n':
                return m(rest, pi, caps, opens)
            if pi < n and at[pi][0] != 'c':
                if at[pi][0] == 's':
                    if pi == n - 1 and ctx.branch(at[pi][1] == 10):
                        return m(rest, pi, caps, opens)
                elif at[pi][1].has('\n') and pi == n - 1:
                    raise Unsupported('regex $ before a block that may be a newline')
            return None
        _, cls, lo, hi, greedy = it
        inf = hi is sc.MAXREPEAT or hi >= 10 ** 6
        # consumable prefix
        stops = [(pi, 0)]          # (position, count) count>=...
        p, cnt = pi, 0
        while p < n and (inf or cnt < hi):
            a = at[p]
            if a[0] == 'blk':
                r = _rel(cls, a[1])
                if r == 'none':
                    break
                if r == 'mixed':
                    raise Unsupported('regex class partially covers a block')
                if not inf or lo > 1:
                    raise Unsupported('bounded regex repeat over a block')
                # partial consumption of this block must be impossible to profit from
                _check_next(rest, a[1], greedy)
                cnt += 1
            else:
                if not single(cls, a):
                    break
                cnt += 1
            p += 1
            stops.append((p, cnt))
        cand = [q for q in stops if q[1] >= lo]
        if greedy:
            cand = list(reversed(cand))
        for q, _c in cand:
            r = m(rest, q, caps, opens)
            if r is not None:
                return r
        return None

    # an item that must consume a character which occurs nowhere: no match
    def may(cls, a):
        if a[0] == 'c':
            return cls.has(a[1])
        return a[0] == 's' or _rel(cls, a[1]) != 'none'
    for x in items:
        if x[0] == 'set' and x[2] >= 1 and not any(may(x[1], a) for a in at[start:]):
            return None
    starts = [start] if (anchored or full) else range(start, n + 1)
    for st in starts:
        if st < n and st > start and at[st - 1][0] == 'blk':
            pass
        r = m(items, st, {}, {})
        if r is not None:
            end, caps = r
            return caps, st, end, at, ng
        # starting strictly inside the block at `st`
        if not (anchored or full) and st < n and at[st][0] == 'blk':
            bad = False
            for first in _firsts(items):
                if first[0] == 'bol':
                    continue
                if first[0] != 'set':
                    bad = True
                    break
                lo = first[2]
                r = _rel(first[1], at[st][1])
                if lo >= 1 and r == 'none':
                    continue
                if lo >= 1 and r == 'all' and (first[3] is sc.MAXREPEAT or first[3] >= 10 ** 6):
                    continue
                bad = True
            if not bad:
                continue
            raise Unsupported('regex may start inside a block')
    return None


def _firsts(items):
    """items that a match may begin with"""
    for k, x in enumerate(items):
        if x[0] == 'open' or x[0] == 'close':
            continue
        if x[0] == 'alt':
            return [f for seq in x[1] for f in _firsts(seq + items[k + 1:])]
        if x[0] == 'loop':
            return _firsts(x[1] + items[k + 1:]) + _firsts(items[k + 1:])
        return [x]
    return [('end',)]


def _check_next(items, blk, greedy=True):
    """After (partially) consuming a block, the next consuming item must not be able to start inside it."""
    for k, it in enumerate(items):
        if it[0] in ('open', 'close'):
            continue
        if it[0] in ('bol', 'eol', 'eos'):
            return
        if it[0] == 'alt':
            for seq in it[1]:
                _check_next(seq + items[k + 1:], blk, greedy)
            return
        if it[0] == 'loop':
            for f in _firsts(it[1]):
                if f[0] != 'set' or _rel(f[1], blk) != 'none' or f[2] < 1:
                    raise Unsupported('regex ambiguity inside a block')
            continue
        r = _rel(it[1], blk)
        if r == 'none':
            if it[2] >= 1:
                return
            continue
        if it[2] == 0 and greedy:
            # optional item overlapping with the block: greedy full consumption comes first, and
            # whether it succeeds does not depend on leaving a piece of the block behind
            continue
        raise Unsupported('regex ambiguity inside a block')
    return


def rope_slice(at, i, j):
    return mk([a[2] for a in at[i:j]])


def to_z3re(pat):
    items, ng = linearize(pat)
    bol = eol = False
    rs = []
    for i, it in enumerate(items):
        if it[0] == 'bol':
            if rs:
                raise Unsupported('regex ^ inside')
            bol = True
        elif it[0] == 'eol':
            eol = True
        elif it[0] in ('alt', 'loop', 'eos'):
            raise Unsupported('regex group')
        elif it[0] == 'set':
            r = it[1].re()
            if r is None:
                raise Unsupported('empty class')
            lo, hi = it[2], it[3]
            inf = hi is sc.MAXREPEAT or hi >= 10 ** 6
            if inf:
                r2 = z3.Star(r)
                if lo:
                    r2 = z3.Concat(*([r] * lo + [r2]))
            elif (lo, hi) == (1, 1):
                r2 = r
            else:
                r2 = z3.Loop(r, lo, hi)
            rs.append(r2)
    e = rs[0] if len(rs) == 1 else z3.Concat(*rs) if rs else z3.Re('')
    return e, bol, eol, items, ng


def regex(ctx, how, pat, s):
    """re.search/match/fullmatch -> RegexMatch | None (engine values)"""
    if hasattr(pat, 'pattern'):
        if pat.flags & ~re.UNICODE:
            raise Unsupported('regex flags')
        pat = pat.pattern
    if isinstance(s, str):
        m = getattr(re, how)(pat, s)
        if m is None:
            return None
        return RegexMatch([m.group(0)] + list(m.groups()), dict(m.re.groupindex))
    tree_names = {}
    try:
        r = rope_search(ctx, pat, s, anchored=(how == 'match'), full=(how == 'fullmatch'))
        if r is None:
            return None
        caps, i, j, at, ng = r
        groups = [rope_slice(at, i, j)]
        for g in range(1, ng + 1):
            groups.append(rope_slice(at, *caps[g]) if g in caps else None)
        return RegexMatch(groups, tree_names)
    except Unsupported:
        pass
    return regex_uf(ctx, how, pat, s)


def regex_uf(ctx, how, pat, s):
    """Uninterpreted result keyed by (pattern, subject) with sound facts about it."""
    ctx.memo['uf'] = True
    base = 're.%s<%s>' % (how, pat)
    S = zstr(s)
    facts = None
    try:
        e, bol, eol, items, ng = to_z3re(pat)
        full = z3.Full(z3.ReSort(z3.StringSort()))
        pre = [] if (bol or how in ('match', 'fullmatch')) else [full]
        post = [] if (how == 'fullmatch' or eol) else [full]
        whole = z3.Concat(*(pre + [e] + post)) if (pre or post) else e
        if eol:
            raise Unsupported('eol')
        present = z3.InRe(S, whole)
        facts = items
    except Unsupported:
        ng = re.compile(pat).groups
        present = z3.Function(base, z3.StringSort(), z3.BoolSort())(S)
    if not ctx.branch(present):
        return None
    groups = []
    for g in range(0, ng + 1):
        f = z3.Function('%s.group%d' % (base, g), z3.StringSort(), z3.StringSort())
        t = f(S)
        part = Part('opq', e=t)
        if facts is not None:
            sub, depth = [], 0
            active = (g == 0)
            for it in facts:
                if it == ('open', g):
                    active = True
                elif it == ('close', g):
                    active = False
                elif it[0] == 'set' and active:
                    sub.append(it)
            if sub:
                rs = []
                for it in sub:
                    r = it[1].re()
                    lo, hi = it[2], it[3]
                    if hi is sc.MAXREPEAT or hi >= 10 ** 6:
                        r2 = z3.Star(r)
                        if lo:
                            r2 = z3.Concat(*([r] * lo + [r2]))
                    elif (lo, hi) == (1, 1):
                        r2 = r
                    else:
                        r2 = z3.Loop(r, lo, hi)
                    rs.append(r2)
                ctx.assume(z3.InRe(t, z3.Concat(*rs) if len(rs) > 1 else rs[0]))
                ne = any(it[2] >= 1 for it in sub)
                if len(sub) == 1 and not sub[0][1].neg:
                    part = Part('opq', e=t, only=frozenset(sub[0][1].chars), nonempty=ne)
                else:
                    part = Part('opq', e=t, nonempty=ne)
            ctx.assume(z3.Contains(S, t))
        groups.append(Sym('str', t, parts=[part], seqkey=t.sexpr()))
    return RegexMatch(groups)


def sub(ctx, pat, repl, s):
    if hasattr(pat, 'pattern'):
        pat = pat.pattern
    if isinstance(s, str) and isinstance(repl, str):
        return re.sub(pat, repl, s)
    if not isinstance(repl, str) or '\\' in repl:
        raise Unsupported('re.sub replacement')
    items, ng = linearize(pat)
    # single literal characters: same as replace
    if len(items) == 1 and items[0][0] == 'set' and items[0][2:4] == (1, 1) and not items[0][1].neg \
            and len(items[0][1].chars) == 1:
        return replace(ctx, s, next(iter(items[0][1].chars)), repl)
    # a literal string
    if all(it[0] == 'set' and it[2:4] == (1, 1) and not it[1].neg and len(it[1].chars) == 1 for it in items):
        return replace(ctx, s, ''.join(next(iter(it[1].chars)) for it in items), repl)
    at = _atoms(ctx, s)
    out = []
    pos = 0
    for _ in range(200):
        r = rope_search(ctx, pat, at, start=pos)
        if r is None:
            break
        caps, i, j, _, _ = r
        if i == j:
            raise Unsupported('empty match in re.sub')
        out += [a[2] for a in at[pos:i]] + [Part('lit', repl)]
        pos = j
    out += [a[2] for a in at[pos:]]
    return mk(out)


def finditer(ctx, pat, s):
    if hasattr(pat, 'pattern'):
        if pat.flags & ~re.UNICODE:
            raise Unsupported('regex flags')
        pat = pat.pattern
    at = _atoms(ctx, s)
    out, pos = [], 0
    while pos <= len(at):
        r = rope_search(ctx, pat, at, start=pos)
        if r is None:
            break
        caps, i, j, _, ng = r
        if i == j:
            raise Unsupported('empty match in re.finditer')
        out.append(RegexMatch([rope_slice(at, i, j)] + [rope_slice(at, *caps[g]) if g in caps else None for g in range(1, ng + 1)], {}))
        pos = j
    return out
