"""Splitting durations into notatable ones: nothing lost, nothing gained, everything notatable."""
from pyvc.api import *
import io
import contextlib
import music21 as m21
from converter21.shared import M21Utilities
from converter21.humdrum import HumdrumWriter

P = Prop('C06')
U = 'converter21.shared.m21utilities:M21Utilities.'
NOTE = 'music21 durations are the real ones, evaluated on every case of the finite domain'
POW = {Fraction(2) ** k for k in range(-16, 12)}
DOTTED = {b * (2 - Fraction(1, 2 ** d)): (b, d) for d in (3, 2, 1, 0) for b in POW}


def exact(q):
    return q if isinstance(q, Fraction) else Fraction(q)


VALUES = sorted({Fraction(n, 16) for n in range(1, 513)} | {Fraction(n, 256) for n in range(1, 257)}
                | {Fraction(n, 2048) for n in (1, 2, 3, 5, 7, 11, 15, 1023, 2047, 2049, 8191)}
                | {Fraction(n, d) for d in (3, 5, 6, 7, 12, 24) for n in range(1, 50)} | {Fraction(n) for n in range(33, 80)})


@P.lemma(num=OneOf(*VALUES, *[-v for v in VALUES[:40]], 0), targets=[U + 'isPowerOfTwo', U + 'isPowerOfTwoWithDots'])
def power_of_two(num):
    assert M21Utilities.isPowerOfTwo(num) == (abs(num) in POW)
    if num >= 0:
        assert M21Utilities.isPowerOfTwoWithDots(num) == (num in DOTTED)


@P.lemma(num=OneOf(*VALUES), targets=[U + 'computeDurationNoDotsAndNumDots'])
def dots_of(num):
    """the undotted base and the dots multiply back to the duration; None when no note with up to 3 dots lasts that long"""
    base, dots = M21Utilities.computeDurationNoDotsAndNumDots(num)
    if num in DOTTED:
        assert dots is not None
        assert exact(base) * (2 - Fraction(1, 2 ** dots)) == num
        assert exact(base) in POW
    else:
        assert dots is None and exact(base) == num


@P.lemma(num=OneOf(*VALUES), targets=[U + 'getPowerOfTwoQuarterLengthsWithDotsAddingTo'])
def parts_add_up(num):
    """the parts add up to the duration, and each is a single note with at most 3 dots whenever that is possible at all"""
    parts = M21Utilities.getPowerOfTwoQuarterLengthsWithDotsAddingTo(num)
    assert sum([exact(p) for p in parts]) == num
    dyadic = Fraction(num).denominator in POW and Fraction(num).denominator <= 2048
    for p in parts:
        assert exact(p) in DOTTED or (not dyadic and len(parts) == 1)
    assert num not in DOTTED or len(parts) == 1


@P.lemma(num=OneOf(*VALUES[::3]), targets=[U + 'getPowerOfTwoDurationsWithDotsAddingTo'], note=NOTE)
def durations_add_up(num):
    durs = M21Utilities.getPowerOfTwoDurationsWithDotsAddingTo(num)
    dyadic = Fraction(num).denominator in POW and Fraction(num).denominator <= 2048
    assert dyadic or len(durs) == 0
    assert not dyadic or sum([exact(d.quarterLength) for d in durs]) == num


TOTALS = [Fraction(n, 4) for n in (1, 2, 3, 4, 5, 6, 8, 9, 10, 12, 13, 16, 20)]
CROSS = [(t, Fraction(n, d)) for t in TOTALS for d in (1, 3, 5, 8) for n in range(0, int(t * d) + 1)]


@P.lemma(case=OneOf(*CROSS), targets=[U + 'getPowerOfTwoDurationsWithDotsAddingToAndCrossing'], note=NOTE)
def crossing(case):
    """the first list reaches exactly the crossing point, the second goes on exactly to the end"""
    total, cross = case
    one, two = M21Utilities.getPowerOfTwoDurationsWithDotsAddingToAndCrossing(total, cross)
    assert sum([exact(d.quarterLength) for d in one]) == cross
    assert sum([exact(d.quarterLength) for d in two]) == total - cross


@P.lemma(base=OneOf(*sorted(POW)[7:22]), dots=OneOf(0, 1, 2, 3, 4), targets=[U + 'makeDuration'], note=NOTE)
def make_duration(base, dots):
    d = M21Utilities.makeDuration(float(base), dots)
    assert exact(d.quarterLength) == base * (2 - Fraction(1, 2 ** dots))
    assert d.dots == dots


@P.lemma(num=OneOf(*VALUES[:900:4]), targets=[U + 'splitComplexRestDuration'], note=NOTE)
def rest_parts(num):
    """a rest of any length splits into rests that together last as long"""
    r = m21.note.Rest(quarterLength=num)
    parts = M21Utilities.splitComplexRestDuration(r)
    assert sum([exact(p.quarterLength) for p in parts]) == num


from specs._e2e import write_krn, read_krn, notes


@P.bounded('all pairs of gap and following note in 16ths within a 4/4 measure, sampled',
           gap=OneOf(*range(0, 12)), length=OneOf(1, 2, 3, 4, 6, 8), first=OneOf(1, 2, 3, 4), quick=25, thorough=250,
           targets=['converter21.humdrum.measuredata:MeasureData._parseEventsIn', U + 'getPowerOfTwoQuarterLengthsWithDotsAddingTo'])
def gaps_filled(gap, length, first):
    """exporting a voice with a gap keeps every later note at its time, and the measure at its length"""
    if first + gap + length > 16:
        return
    m = m21.stream.Measure(number=1)
    m.insert(0, m21.meter.TimeSignature('4/4'))
    m.insert(0, m21.note.Note('C4', quarterLength=Fraction(first, 4)))
    m.insert(Fraction(first + gap, 4), m21.note.Note('D4', quarterLength=Fraction(length, 4)))
    s = m21.stream.Score([m21.stream.Part([m, m21.stream.Measure([m21.note.Rest(quarterLength=4)])])])
    back = notes(read_krn(write_krn(s, notation=False)), hidden=True)
    assert (Fraction(first + gap, 4), Fraction(length, 4), 'D4') in back
    assert sum(d for _, d, _ in back) == Fraction(first + gap + length, 4) + 4
    for a, b in zip(back, back[1:]):
        assert a[0] + a[1] == b[0]
