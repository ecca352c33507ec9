"""Rhythm text (**recip / **kern / **mens) <-> exact rational durations in quarter notes."""
from pyvc.api import *
from pyvc.values import SymMap, Sym
from converter21.humdrum.convert import Convert

P = Prop('C01')
CV = 'converter21.humdrum.convert:Convert.'
CACHED = 'Convert.recipToDuration'


EMPTY_AT_IMPORT = {k for k, v in vars(Convert).items() if isinstance(v, dict) and not v}


def cache(expected):
    """The class-level cache in an arbitrary state reached by earlier calls: an entry for a key, where there is
    one, holds the specified duration for that key (a bare token means: at the default scale of 4).
    Every entry written must keep that true."""
    def install(it, vals):
        def mk(it2, cls, name, v):
            if name not in EMPTY_AT_IMPORT:
                return None

            def of_key(it3, key):
                if isinstance(key, tuple) and len(key) == 2:
                    tok, scale = key
                elif isinstance(key, tuple):
                    return None
                else:
                    tok, scale = key, 4
                return it3.call(expected, [tok, scale] + list(vals), {})

            def entry(it3, key):
                r = of_key(it3, key)
                if r is None:
                    from pyvc.values import Unsupported
                    raise Unsupported('cache key format')
                return r

            m = SymMap(name, entry)

            def at_exit(it3):
                for e in m.entries:
                    if e[3] and e[1]:
                        r = of_key(it3, e[0])
                        it3.ctx.oblige(f'{name}: every cached duration is the one its key denotes',
                                       it3.eq(e[2], r) if r is not None else False)
            it2.ctx.memo.setdefault('exit_checks', []).append(at_exit)
            return m
        it.opts['static_maps'] = mk
    return install


PRE = Str(excl='0123456789.% q', alpha='([{_;Tt&', maxlen=3)
POST = Str(excl='0123456789.% q', alpha='abcdefgABC#-nrLJ/]);_', words=['c', 'cc#', 'r', 'BB-L'], maxlen=5)
TAIL = Str(excl='q', alpha='248.% cde', maxlen=6, words=['', '8c', '16..e 4g', '3%2d'])
SCALES = Real(0, strict=True, samples=(4, 1, 2, Fraction(3, 2)), dens=(1, 2, 3))


def dotted(base, dots):
    return base * (2 - Fraction(1, 2 ** dots))


def exp_plain(tok, sc, pre, n, dots, post, more, tail, scale, scale0):
    return dotted(Fraction(1, n), dots) * Fraction(sc)


@P.lemma(pre=PRE, n=Int(1), dots=OneOf(0, 1, 2, 3, 4, 5), post=POST, more=Bool(), tail=TAIL, scale=SCALES, scale0=SCALES,
         targets=[CV + 'recipToDuration'], statics=cache(exp_plain))
def plain_rhythm(pre, n, dots, post, more, tail, scale, scale0):
    """[prefix]N[dots][pitch etc.][ other chord notes] lasts scale/N * (2 - 2^-dots), whatever was asked before"""
    token = pre + str(n) + '.' * dots + post + (' ' + tail if more else '')
    Convert.recipToDuration(token, scale0)
    assert Convert.recipToDuration(token, scale) == dotted(Fraction(1, n), dots) * Fraction(scale)


def exp_ratio(tok, sc, pre, n, m, dots, post, more, tail, scale, scale0):
    return dotted(Fraction(m, n), dots) * Fraction(sc)


@P.lemma(pre=PRE, n=Int(1), m=Int(0), dots=OneOf(0, 1, 2, 3), post=POST, more=Bool(), tail=TAIL, scale=SCALES,
         scale0=SCALES, targets=[CV + 'recipToDuration'], statics=cache(exp_ratio))
def ratio_rhythm(pre, n, m, dots, post, more, tail, scale, scale0):
    """N%M lasts M/N whole notes"""
    token = pre + str(n) + '%' + str(m) + '.' * dots + post + (' ' + tail if more else '')
    Convert.recipToDuration(token, scale0)
    assert Convert.recipToDuration(token, scale) == dotted(Fraction(m, n), dots) * Fraction(scale)


def exp_zero(tok, sc, pre, zeros, dots, post, more, tail, scale, scale0):
    return dotted(2 ** zeros, dots) * Fraction(sc)


@P.lemma(pre=PRE, zeros=OneOf(1, 2, 3, 4), dots=OneOf(0, 1, 2, 3), post=POST, more=Bool(), tail=TAIL, scale=SCALES,
         scale0=SCALES, targets=[CV + 'recipToDuration'], statics=cache(exp_zero))
def breve_rhythm(pre, zeros, dots, post, more, tail, scale, scale0):
    """0 is a breve, 00 a long, 000 a maxima, ..."""
    token = pre + '0' * zeros + '.' * dots + post + (' ' + tail if more else '')
    Convert.recipToDuration(token, scale0)
    assert Convert.recipToDuration(token, scale) == dotted(2 ** zeros, dots) * Fraction(scale)


def exp_later(tok, sc, num, dots, post, post2):
    return dotted(Fraction(2 ** len(num)) if num[0] == '0' else Fraction(1, int(num)), dots) * Fraction(sc)


@P.lemma(num=OneOf('0', '00', '1', '8', '12'), dots=OneOf(0, 2),
         post=Str(nonempty=True, excl='0123456789.% q', alpha='cC#-rXy', maxlen=3),
         post2=Str(excl='.% q', alpha='abcC#-r0123LJ]_', words=['0', '05', 'y12', '00'], maxlen=5),
         targets=[CV + 'recipToDuration'], statics=cache(exp_later))
def later_digits(num, dots, post, post2):
    """digits after the rhythm do not change it"""
    d = dotted(Fraction(2 ** len(num)) if num[0] == '0' else Fraction(1, int(num)), dots)
    assert Convert.recipToDuration(num + '.' * dots + post + post2) == 4 * d


def exp_none(tok, sc, *args):
    return 0


@P.lemma(a=Str(alpha='48.cq '), b=Str(alpha='48.cq '), scale=SCALES, targets=[CV + 'recipToDuration'],
         statics=cache(exp_none))
def grace_rhythm(a, b, scale):
    """a grace note takes no time"""
    assert Convert.recipToDuration(a + 'q' + b, scale) == 0


@P.lemma(a=Str(excl='0123456789q ', alpha='.cr#LJ'), more=Bool(), b=Str(excl='q', alpha='48.c '), scale=SCALES,
         targets=[CV + 'recipToDuration'], statics=cache(exp_none))
def no_rhythm(a, more, b, scale):
    """no digit in the first note: no duration"""
    assert Convert.recipToDuration(a + (' ' + b if more else ''), scale) == 0


@P.lemma(pre=PRE, n=Int(1), dots=OneOf(0, 1, 2, 3), post=POST, more=Bool(), tail=TAIL,
         targets=[CV + 'recipToDurationNoDots'], statics=cache(
             lambda tok, sc, pre, n, dots, post, more, tail: Fraction(1, n) * Fraction(sc)))
def nodots_rhythm(pre, n, dots, post, more, tail):
    token = pre + str(n) + '.' * dots + post + (' ' + tail if more else '')
    assert Convert.recipToDurationNoDots(token) == Fraction(4, n)


# ---------------------------------------------------------------- durations back to text

def exp_any(tok, sc, d):
    return Fraction(d) * Fraction(sc) / 4


@P.lemma(d=Real(0, strict=True, samples=(1, Fraction(4, 3), Fraction(3, 2), 6, 32, 48, Fraction(7, 4), Fraction(1, 10))),
         targets=[CV + 'durationToRecip', CV + 'recipToDuration'], statics=cache(exp_any))
def duration_text_duration(d):
    """every positive duration has a text that means exactly that duration"""
    assert Convert.recipToDuration(Convert.durationToRecip(d)) == d


@P.lemma(targets=[CV + 'durationToRecip'])
def grace_duration_text():
    assert Convert.durationToRecip(0) == 'q'


@P.lemma(n=Int(1), targets=[CV + 'durationToRecip'])
def undotted_text(n):
    """an N-th note is written N"""
    assert Convert.durationToRecip(Fraction(4, n)) == str(n)


@P.lemma(e=OneOf(*range(0, 11)), dots=OneOf(1, 2, 3), targets=[CV + 'durationToRecip'])
def dotted_text(e, dots):
    """dotted power-of-two notes are written with dots"""
    n = 2 ** e
    assert Convert.durationToRecip(dotted(Fraction(4, n), dots)) == str(n) + '.' * dots


@P.lemma(zeros=OneOf(1, 2, 3), dots=OneOf(0, 1), targets=[CV + 'durationToRecip'])
def breve_text(zeros, dots):
    assert Convert.durationToRecip(dotted(Fraction(4 * 2 ** zeros), dots)) == '0' * zeros + '.' * dots


# ---------------------------------------------------------------- mensural rhythms

MENS = {'X': 32, 'L': 16, 'S': 8, 's': 4, 'M': 2, 'm': 1, 'U': Fraction(1, 2), 'u': Fraction(1, 4)}


def _mens_step(stop, perfect, q, ch):
    if stop:
        return stop, perfect, q
    if ch == ' ':
        return True, perfect, q
    p = True if ch == 'p' else False if ch == 'i' else perfect
    v = 0
    for c in 'XLSsMmUu':
        v = MENS[c] if ch == c else v
    return v != 0, p, v


MENSF = Fold('mens', dict(stop=False, perfect=False, q=Fraction(0)), _mens_step,
             done=lambda stop, perfect, q: stop, inv=lambda stop, perfect, q: stop or q == 0)
MALPHA = 'XLSsMmUupi cdr'


@P.contract(CV + 'mensToDuration', folds=[(MENSF, 'text')], text=Str(alpha=MALPHA))
def mens_duration(text):
    stop, perfect, q = MENSF(text)
    return q * Fraction(3, 2) if perfect else q


@P.contract(CV + 'mensToDurationNoDots', folds=[(MENSF, 'text')], text=Str(alpha=MALPHA))
def mens_duration_nodots(text):
    return MENSF(text)[2]


# ---------------------------------------------------------------- time signatures

from converter21.humdrum.humdrumtoken import HumdrumToken     # noqa: E402


@P.lemma(top=Int(0), bot=Int(1), rest=Str(excl='0123456789', alpha='+/%c'), scale=SCALES,
         targets=[CV + 'timeSigToDuration'])
def time_signature_duration(top, bot, rest, scale):
    token = HumdrumToken('*M' + str(top) + '/' + str(bot) + rest)
    assert Convert.timeSigToDuration(token, scale) == Fraction(top, bot) * Fraction(scale)
    assert Convert.timeSigToDuration(token) == Fraction(4 * top, bot)
