"""Clef, key, time-signature and transposition interpretations <-> music21 objects."""
from pyvc.api import *
import music21 as m21
from converter21.humdrum.convert import Convert
from converter21.humdrum.humdrumtoken import HumdrumToken
from converter21.humdrum.m21convert import M21Convert
from specs._common import Rec, in_spine

P = Prop('C04')
M = 'converter21.humdrum.m21convert:M21Convert.'
CV = 'converter21.humdrum.convert:Convert.'
TK = 'converter21.humdrum.humdrumtoken:HumdrumToken.'

# ---------------------------------------------------------------- transposition

SIGN = OneOf('', '+', '-')


@P.lemma(pre=OneOf('*Tr', '*ITr', '', '*ITr '), s1=SIGN, d=Int(0), s2=SIGN, c=Int(0),
         post=Str(excl='0123456789', alpha='ab c'), targets=[CV + 'transToDiatonicChromatic'])
def transposition_text(pre, s1, d, s2, c, post):
    """d<N>c<M>, each optionally signed, denotes N diatonic and M chromatic steps"""
    got = Convert.transToDiatonicChromatic(pre + 'd' + s1 + str(d) + 'c' + s2 + str(c) + post)
    assert got == (-d if s1 == '-' else d, -c if s2 == '-' else c)


@P.lemma(d=Int(), c=Int(), pre=OneOf('*Tr', '*ITr', ''), targets=[CV + 'transToDiatonicChromatic', CV + 'diatonicChromaticToTrans'])
def transposition_inverse(d, c, pre):
    assert Convert.transToDiatonicChromatic(pre + Convert.diatonicChromaticToTrans(d, c)) == (d, c)


@P.lemma(text=Str(excl='d', alpha='*ITrc0123-+'), targets=[CV + 'transToDiatonicChromatic'])
def no_transposition(text):
    assert Convert.transToDiatonicChromatic(text) == (None, None)


@P.lemma(d=Int(), c=Int(), tr=OneOf('*Tr', '*ITr'), targets=[TK + 'transpose', TK + 'instrumentTranspose'])
def transposition_token(d, c, tr):
    tok = HumdrumToken(tr + Convert.diatonicChromaticToTrans(d, c))
    assert tok.isTranspose == (tr == '*Tr')
    assert tok.isInstrumentTranspose == (tr == '*ITr')
    assert tok.transpose == ('d' + str(d) + 'c' + str(c) if tr == '*Tr' else '')
    assert tok.instrumentTranspose == ('d' + str(d) + 'c' + str(c) if tr == '*ITr' else '')


MAJOR = (0, 2, 4, 5, 7, 9, 11)
PAIRS = [(d, (12 * (d // 7) + MAJOR[d % 7]) + a) for d in range(0, 16) for a in (-1, 0, 1)]
PAIRS = PAIRS + [(-d, -c) for d, c in PAIRS if d > 0]


@P.lemma(dc=OneOf(*PAIRS), targets=[M + 'm21IntervalFromTranspose', M + 'humdrumTransposeStringFromM21Interval'],
         note='music21.interval is the real module, evaluated on every case of the finite domain')
def interval_inverse(dc):
    """transposition text -> music21 interval -> transposition text; the interval has the stated sizes"""
    d, c = dc
    text = 'd' + str(d) + 'c' + str(c)
    i = M21Convert.m21IntervalFromTranspose(text)
    if d == 0 and c == 0:
        assert i is None
    else:
        assert i.semitones == c
        assert i.generic.staffDistance == d
        assert M21Convert.humdrumTransposeStringFromM21Interval(i) == text
        if d:
            inst = Rec(transposition=i)
            tok = M21Convert.instrumentTransposeTokenFromM21Instrument(inst)
            assert tok.text == '*ITrd' + str(-d) + 'c' + str(-c)


@P.lemma(g=Int(), s=Int(), targets=[M + 'humdrumTransposeStringFromM21Interval'], requires=lambda g, s: g != 0,
         note='an interval is read only through semitones and generic.value')
def interval_text(g, s):
    """a generic interval N (unison = 1 or -1) is N-1 diatonic steps away from zero"""
    t = M21Convert.humdrumTransposeStringFromM21Interval(Rec(semitones=s, generic=Rec(value=g)))
    assert t == 'd' + str(g - 1 if g > 0 else g + 1) + 'c' + str(s)


# ---------------------------------------------------------------- clefs

SIGNS = [(s, o, n) for s in 'GFC' for o in (-2, -1, 0, 1, 2) for n in (1, 2, 3, 4, 5)]


@P.lemma(clef=OneOf(*SIGNS), targets=[M + 'clefTokenFromM21Clef'],
         note='a clef is read only through sign, line and octaveChange')
def clef_to_token(clef):
    sign, octave, line = clef
    tok = M21Convert.clefTokenFromM21Clef(Rec(sign=sign, octaveChange=octave, line=line))
    assert tok.text == '*clef' + sign + ('^' * octave if octave > 0 else 'v' * -octave) + str(line)


@P.lemma(clef=OneOf(*SIGNS), dash=Bool(), dtype=OneOf('**kern', '**mens'), targets=[M + 'm21Clef', TK + 'clef'],
         note='music21.clef is the real module, evaluated on every case of the finite domain')
def token_to_clef(clef, dash, dtype):
    """the music21 clef has the token's sign, line and octave change, and prints back as the same token"""
    sign, octave, line = clef
    text = '*clef' + sign + ('^' * octave if octave > 0 else 'v' * -octave) + ('-' if dash else '') + str(line)
    tok = in_spine(text, dtype)
    assert tok.isClef
    c = M21Convert.m21Clef(tok)
    assert c.sign == sign and c.line == line and (c.octaveChange or 0) == octave
    if not dash:
        assert M21Convert.clefTokenFromM21Clef(c).text == text


@P.lemma(line=OneOf(None, 1, 2, 3, 4, 5), targets=[M + 'm21Clef', M + 'clefTokenFromM21Clef'])
def percussion_clef(line):
    text = '*clefX' + ('' if line is None else str(line))
    c = M21Convert.m21Clef(in_spine(text))
    assert c.sign == 'percussion' and c.line == line
    assert M21Convert.clefTokenFromM21Clef(c).text == text


@P.lemma(targets=[M + 'm21Clef', M + 'clefTokenFromM21Clef'])
def no_clef():
    assert isinstance(M21Convert.m21Clef(in_spine('*clef-')), m21.clef.NoClef)
    assert M21Convert.clefTokenFromM21Clef(None) is None
    assert M21Convert.clefTokenFromM21Clef(m21.clef.TabClef()) is None


# ---------------------------------------------------------------- keys

SHARPS, FLATS = 'fcgdaeb', 'beadgcf'


def standard(n):
    letters = SHARPS if n > 0 else FLATS
    sign = '#' if n > 0 else '-'
    return ''.join([ch + sign * ((abs(n) - i + 6) // 7) for i, ch in enumerate(letters)]) if n else ''


@P.lemma(n=OneOf(*range(-14, 15)), targets=[M + 'keySigTokenFromM21KeySignature'])
def key_signature_text(n):
    """n sharps (or -n flats) are written in the standard order, doubled from the eighth on"""
    t = M21Convert.keySigTokenFromM21KeySignature(Rec(sharps=n)).text
    letters = (SHARPS if n > 0 else FLATS)
    sign = '#' if n > 0 else '-'
    want = '*k['
    for i in range(7):
        if abs(n) > i:
            want += letters[i] + sign * (2 if abs(n) > i + 7 else 1)
    assert t == want + ']'


@P.lemma(n=OneOf(*range(-7, 8)), cancel=OneOf('', 'bn', 'bnen', 'fncn', 'gn'), targets=[M + 'm21KeySignature', M + 'keySigTokenFromM21KeySignature'],
         note='music21.key is the real module, evaluated on every case of the finite domain')
def key_signature_inverse(n, cancel):
    tok = M21Convert.keySigTokenFromM21KeySignature(Rec(sharps=n))
    k = M21Convert.m21KeySignature(tok)
    assert k.sharps == n
    assert M21Convert.keySigTokenFromM21KeySignature(k).text == tok.text
    k2 = M21Convert.m21KeySignature(HumdrumToken('*k[' + cancel + tok.text[3:]))
    assert k2.sharps == n


ODD = ['f#g#', 'c#', 'e-', 'b-f#', 'g#', 'f#c#g#a#', 'a-d-', 'c-', 'b-e-f#', 'd#b-']


@P.lemma(body=OneOf(*ODD), cancel=OneOf('', 'bn', 'en'), targets=[M + 'm21KeySignature'])
def odd_key_signature(body, cancel):
    """a non-standard key signature alters exactly the pitches it lists; one listing no pitch is no signature"""
    k = M21Convert.m21KeySignature(HumdrumToken('*k[' + cancel + body + ']'))
    assert [p.name for p in k.alteredPitches] == [body[i:i + 2].upper() for i in range(0, len(body), 2)]
    assert M21Convert.m21KeySignature(HumdrumToken('*k[X]')) is None


MODES = [('', 'major'), ('', 'minor'), ('dor', 'dorian'), ('phr', 'phrygian'), ('lyd', 'lydian'),
         ('mix', 'mixolydian'), ('aeo', 'aeolian'), ('ion', 'ionian'), ('loc', 'locrian')]
# semitone-free spelling: tonic on the line of fifths, relative to C major = 0
FIFTHS = 'FCGDAEB'
MODE_FIFTHS = {'major': 0, 'ionian': 0, 'mixolydian': -1, 'dorian': -2, 'minor': -3, 'aeolian': -3, 'phrygian': -4,
               'locrian': -5, 'lydian': 1}
KEYS = [(t + a, m) for t in 'CDEFGAB' for a in ('', '#', '-') for m in MODES
        if abs(FIFTHS.index(t) - 1 + 7 * {'': 0, '#': 1, '-': -1}[a] + MODE_FIFTHS[m[1]]) <= 7]


def sharps_of(tonic, mode):
    return FIFTHS.index(tonic[0]) - 1 + 7 * (tonic.count('#') - tonic.count('-')) + MODE_FIFTHS[mode]


@P.lemma(key=OneOf(*KEYS), lie=OneOf(0, 1, -1), targets=[M + 'm21KeySignature', M + 'keyDesignationTokenFromM21KeySignature', TK + 'keyDesignation'])
def key_designation(key, lie):
    """a key designation agreeing with its signature gives the full key, which prints back; a conflicting one is dropped"""
    tonic, (suffix, mode) = key
    n = sharps_of(tonic, mode)
    low = mode == 'minor' or mode == 'dorian' or mode == 'phrygian' or mode == 'aeolian' or mode == 'locrian'
    text = '*' + (tonic.lower() if low else tonic) + ':' + suffix
    tok = HumdrumToken(text)
    assert tok.isKeyDesignation
    if abs(n + lie) <= 7:
        k = M21Convert.m21KeySignature(M21Convert.keySigTokenFromM21KeySignature(Rec(sharps=n + lie)), tok)
        assert k.sharps == n + lie
        if lie == 0:
            assert isinstance(k, m21.key.Key) and k.mode == mode and k.tonic.name == tonic
            back = M21Convert.keyDesignationTokenFromM21KeySignature(k).text
            assert back[1:].lower() == text[1:].lower()
            assert HumdrumToken(back).keyDesignation[1] == tok.keyDesignation[1]
        else:
            assert not isinstance(k, m21.key.Key)
            assert M21Convert.keyDesignationTokenFromM21KeySignature(k) is None


@P.lemma(body=Str(alpha='abcdefg#-n'), targets=[TK + 'keySignature'])
def key_signature_token(body):
    assert HumdrumToken('*k[' + body + ']').keySignature == body
    assert HumdrumToken('*ok[' + body + ']').originalKeySignature == body
    assert HumdrumToken('*k[' + body).keySignature == '' or body[-1] == ']'


# ---------------------------------------------------------------- time signatures

@P.lemma(top=Int(0), bot=Int(1), post=Str(excl='0123456789', alpha='%+ a'), targets=[TK + 'timeSignature'])
def time_signature_token(top, bot, post):
    tok = HumdrumToken('*M' + str(top) + '/' + str(bot) + post)
    assert tok.isTimeSignature
    assert tok.timeSignature == (top, bot)
    assert tok.timeSignatureRatioString == str(top) + '/' + str(bot)


@P.lemma(top=Int(0), zeros=OneOf(1, 2, 3, 4), targets=[TK + 'timeSignature'])
def breve_time_signature(top, zeros):
    """a beat of 0 is a breve, 00 a long, ..."""
    tok = HumdrumToken('*M' + str(top) + '/' + '0' * zeros)
    assert tok.timeSignature == (top * 2 ** zeros, 1)


@P.lemma(top=OneOf(*range(1, 33)), bot=OneOf(1, 2, 4, 8, 16, 32, 64, 128), sym=OneOf(None, 'common', 'cut'),
         targets=[M + 'm21TimeSignature', M + 'timeSigTokenFromM21TimeSignature', M + 'meterSigTokenFromM21TimeSignature'],
         note='music21.meter is the real module, evaluated on every case of the finite domain')
def time_signature_inverse(top, bot, sym):
    tok = HumdrumToken('*M' + str(top) + '/' + str(bot))
    met = None if sym is None else HumdrumToken('*met(' + {'common': 'c', 'cut': 'c|'}[sym] + ')')
    ts = M21Convert.m21TimeSignature(tok, met)
    assert ts.numerator == top and ts.denominator == bot
    assert M21Convert.timeSigTokenFromM21TimeSignature(ts).text == tok.text
    m = M21Convert.meterSigTokenFromM21TimeSignature(ts)
    assert (m.text if m is not None else None) == (met.text if met is not None else None)


@P.lemma(sym=Str(nonempty=True, excl='\n)', alpha='cCO|.3/'), pre=OneOf('*met(', '*omet('), targets=[TK + 'mensurationSymbol'])
def mensuration_symbol(sym, pre):
    tok = HumdrumToken(pre + sym + ')')
    assert tok.mensurationSymbol == sym
