"""**kern pitch text <-> numeric pitch (base-7 / base-12 / base-40 / MIDI / octave / accidental)."""
from pyvc.api import *

P = Prop('C02')
CV = 'converter21.humdrum.convert:Convert.'
KALPHA = 'abcgABCGr #-n4.'
KERN = ['4c', 'cc#', '8.BB-', 'rr', '4r', 'r4', '', '.', 'c C', 'cC', '2AA- 2c', 'GGG##', 'f#- e', ' c', '4cc--LJ', 'c#\t']


@merge
def diatonic_of(ch):
    if ch == 'c' or ch == 'C':
        return 0
    if ch == 'd' or ch == 'D':
        return 1
    if ch == 'e' or ch == 'E':
        return 2
    if ch == 'f' or ch == 'F':
        return 3
    if ch == 'g' or ch == 'G':
        return 4
    if ch == 'a' or ch == 'A':
        return 5
    if ch == 'b' or ch == 'B':
        return 6
    return -1


# accidental count of the first subtoken
def _acc_step(stop, n, ch):
    if stop or ch == ' ':
        return True, n
    return False, n + (1 if ch == '#' else 0) - (1 if ch == '-' else 0)


ACC = Fold('acc', dict(stop=False, n=0), _acc_step, done=lambda stop, n: stop)


# first pitch letter (or rest) of the first subtoken
def _dia_step(stop, r, ch):
    if stop:
        return True, r
    if ch == ' ':
        return True, -2000
    if ch == 'r':
        return True, -1000
    d = diatonic_of(ch)
    return d >= 0, d if d >= 0 else -2000


DIA = Fold('dia', dict(stop=False, r=-2000), _dia_step, done=lambda stop, r: stop,
           inv=lambda stop, r: (stop or r == -2000) and (r == -1000 or r == -2000 or 0 <= r <= 6))


# letters of each case before a space; rest seen?
def _oct_step(stop, rest, uc, lc, ch):
    if stop or rest:
        return stop, rest, uc, lc
    if ch == ' ':
        return True, rest, uc, lc
    if ch == 'r':
        return False, True, uc, lc
    up = ch == 'A' or ch == 'B' or ch == 'C' or ch == 'D' or ch == 'E' or ch == 'F' or ch == 'G'
    lo = ch == 'a' or ch == 'b' or ch == 'c' or ch == 'd' or ch == 'e' or ch == 'f' or ch == 'g'
    return False, False, uc + (1 if up else 0), lc + (1 if lo else 0)


OCT = Fold('oct', dict(stop=False, rest=False, uc=0, lc=0), _oct_step,
           done=lambda stop, rest, uc, lc: stop or rest, inv=lambda stop, rest, uc, lc: uc >= 0 and lc >= 0)


@P.contract(CV + 'kernToAccidentalCount', folds=[(ACC, 'text')], text=Str(alpha=KALPHA, words=KERN))
def accidental_count(text):
    return ACC(text)[1]


@P.contract(CV + 'kernToDiatonicPC', folds=[(DIA, 'text')], text=Str(alpha=KALPHA, words=KERN))
def diatonic_pc(text):
    return DIA(text)[1]


@P.contract(CV + 'kernToOctaveNumber', folds=[(OCT, 'text')], text=Str(alpha=KALPHA, words=KERN))
def octave_number(text):
    stop, rest, uc, lc = OCT(text)
    if rest or (uc > 0 and lc > 0):
        return -1000
    if uc > 0:
        return 4 - uc
    if lc > 0:
        return 3 + lc
    return -1000


@merge
def natural40(d):
    return (d * 6) if d <= 2 else d * 6 - 1


@merge
def natural12(d):
    return d * 2 if d <= 2 else d * 2 - 1


@P.contract(CV + 'kernToBase40PC', text=Str(alpha=KALPHA, words=KERN))
def base40pc(text):
    d = diatonic_pc(text)
    if d < 0:
        return d
    return natural40(d) + 2 + accidental_count(text)


@P.contract(CV + 'kernToBase40', text=Str(alpha=KALPHA, words=KERN))
def base40(text):
    d = diatonic_pc(text)
    if d < 0:
        return d
    pc = natural40(d) + 2 + accidental_count(text)
    if pc < 0:
        return pc
    return pc + 40 * octave_number(text)


@P.contract(CV + 'kernToBase12PC', text=Str(alpha=KALPHA, words=KERN))
def base12pc(text):
    d = diatonic_pc(text)
    if d < 0:
        return d
    return natural12(d) + accidental_count(text)


@P.contract(CV + 'kernToMidiNoteNumber', text=Str(alpha=KALPHA, words=KERN),
            requires=lambda text: diatonic_pc(text) >= 0)
def midi(text):
    return natural12(diatonic_pc(text)) + accidental_count(text) + 12 * (octave_number(text) + 1)


@P.contract(CV + 'kernToBase7', text=Str(alpha=KALPHA, words=KERN))
def base7(text):
    d = diatonic_pc(text)
    if d < 0:
        return d
    return d + 7 * octave_number(text)


# ---------------------------------------------------------------- numbers back to text

NATURALS = (0, 6, 12, 17, 23, 29, 35)     # base-40 offset of the lowest spelling (double flat) of C D E F G A B
LETTERS = 'cdefgab'


def slot(b40pc):
    """(diatonic, accidental) of a base-40 pitch class, or None for one of the five unused slots"""
    for d in range(7):
        a = b40pc - NATURALS[d] - 2
        if -2 <= a <= 2:
            return d, a
    return None


VALID40 = [b for b in range(680) if slot(b % 40) is not None]


@P.contract(CV + 'base7ToBase40', base7=Int(0))
def base7_to_base40(base7):
    return (base7 // 7) * 40 + natural40(base7 % 7) + 2


@merge
def lowest40(d):
    return natural40(d)


@P.contract(CV + 'base40ToDiatonic', b40=Int())
def base40_to_diatonic(b40):
    if b40 < 0:
        return -1
    s = slot(b40 % 40)
    if s is None:
        return -1
    return s[0] + 7 * (b40 // 40)


@P.contract(CV + 'base40ToAccidental', b40=Int())
def base40_to_accidental(b40):
    if b40 < 0:
        return 0
    s = slot(b40 % 40)
    if s is None:
        return 1000
    return s[1]


@P.contract(CV + 'base40ToKern', b40=OneOf(*VALID40))
def base40_to_kern(b40):
    d, a = slot(b40 % 40)
    octave = b40 // 40
    name = LETTERS[d] * (octave - 3) if octave >= 4 else LETTERS[d].upper() * (4 - octave)
    return name + ('#' * a if a > 0 else '-' * -a)


@P.contract(CV + 'base7ToKern', base7=OneOf(*range(119)))
def base7_to_kern(base7):
    octave = base7 // 7
    d = base7 % 7
    return LETTERS[d] * (octave - 3) if octave >= 4 else LETTERS[d].upper() * (4 - octave)


from converter21.humdrum.convert import Convert      # noqa: E402


@P.lemma(b40=OneOf(*VALID40), targets=[CV + 'base40ToKern', CV + 'kernToBase40'])
def pitch_number_text_number(b40):
    assert Convert.kernToBase40(Convert.base40ToKern(b40)) == b40


@P.lemma(letter=OneOf(*LETTERS), upper=Bool(), more=OneOf(*range(4)), acc=OneOf('', '#', '##', '-', '--'),
         targets=[CV + 'base40ToKern', CV + 'kernToBase40'])
def pitch_text_number_text(letter, upper, more, acc):
    text = (letter.upper() if upper else letter) * (more + 1) + acc
    assert Convert.base40ToKern(Convert.kernToBase40(text)) == text


@P.lemma(base7=OneOf(*range(119)), targets=[CV + 'base7ToKern', CV + 'kernToBase7'])
def diatonic_number_text_number(base7):
    assert Convert.kernToBase7(Convert.base7ToKern(base7)) == base7


@P.lemma(text=Str(alpha=KALPHA, words=KERN), rest=Str(alpha=KALPHA, words=KERN),
         targets=[CV + 'kernToDiatonicPC'])
def numbers_agree(text, rest):
    """diatonic, chromatic and base-40 views of one token agree"""
    if Convert.kernToDiatonicPC(text) >= 0:
        d = Convert.kernToDiatonicPC(text)
        assert 0 <= d <= 6
        assert Convert.kernToBase7(text) == d + 7 * Convert.kernToOctaveNumber(text)
        assert Convert.kernToMidiNoteNumber(text) - Convert.kernToBase12PC(text) == \
            12 * (Convert.kernToOctaveNumber(text) + 1)
        if -2 <= Convert.kernToAccidentalCount(text) <= 2 and Convert.kernToOctaveNumber(text) >= 0:
            b = Convert.kernToBase40(text)
            assert Convert.base40ToAccidental(b) == Convert.kernToAccidentalCount(text)
            assert Convert.base40ToDiatonic(b) == Convert.kernToBase7(text)
    else:
        assert Convert.kernToBase40(text) == Convert.kernToDiatonicPC(text)
        assert Convert.kernToBase7(text) == Convert.kernToDiatonicPC(text)


# ---------------------------------------------------------------- clefs

def clef_base(shape, octaves, line):
    """diatonic number of the bottom staff line: the clef's own pitch sits on its line"""
    own = {'G': 4 + 28, 'F': 3 + 21, 'C': 0 + 28}[shape]
    return own + 7 * octaves - 2 * (line - 1)


@P.lemma(shape=OneOf('G', 'F', 'C'), octaves=OneOf(-2, -1, 0, 1, 2), line=OneOf(1, 2, 3, 4, 5),
         star=OneOf('*', ''), targets=[CV + 'kernClefToBaseline'])
def clef_baseline(shape, octaves, line, star):
    octs = 'v' * -octaves if octaves < 0 else '^' * octaves
    text = star + 'clef' + shape + octs + str(line)
    assert Convert.kernClefToBaseline(text) == clef_base(shape, octaves, line)
