"""Whole scores: the grid a Humdrum file is written from, and both directions of the conversion."""
from pyvc.api import *
from fractions import Fraction
import music21 as m21
from converter21.humdrum import HumGrid, HumdrumFile, HumdrumToken, SliceType, MeasureStyle
from converter21.humdrum.gridmeasure import GridMeasure
from specs.rhythm import EMPTY_AT_IMPORT
from specs._e2e import read_krn, write_krn, read_mei, write_mei
from specs._music import Music, same, mei_chords, tied

P = Prop('C16')
G = 'converter21.humdrum.gridmeasure:GridMeasure.'
H = 'converter21.humdrum.humgrid:HumGrid.'
S = 'converter21.humdrum.gridslice:GridSlice.'
W = 'converter21.humdrum.humdrumwriter:HumdrumWriter.'
TIME = Real(0, samples=(0, 1, Fraction(1, 2), Fraction(4, 3), 2), dens=(1, 2, 3))
TOKEN = Str(excl='\t\n', alpha='cdefg#-_[]', words=['4c', '8.dd-L', '[2E 2G'], maxlen=6)


def at(measure, part, voice):
    """[(time, text)] of the tokens in a voice, in slice order"""
    out = []
    for s in measure.slices:
        vs = s.parts[part].staves[0].voices
        if voice < len(vs) and vs[voice] is not None and vs[voice].token is not None:
            out.append((s.timestamp, vs[voice].token.text))
    return out


@P.lemma(t1=TIME, t2=TIME, t3=TIME, p1=OneOf(0, 1), p2=OneOf(0, 1), p3=OneOf(0, 1), v3=OneOf(0, 1), a=TOKEN, b=TOKEN, c=TOKEN,
         targets=[G + 'addDataToken', S + 'addToken'])
def data_tokens(t1, t2, t3, p1, p2, p3, v3, a, b, c):
    """data tokens added in any order at any times stand in time order, one line for each time, each in its part and voice"""
    m = GridMeasure(HumGrid())
    given = [(t1, p1, 0, a), (t2, p2, 0, b), (t3, p3, v3, c)]
    for t, p, v, text in given:
        m.addDataToken(text, t, p, 0, v, [1, 1])
    for i in range(len(m.slices) - 1):
        assert m.slices[i].timestamp < m.slices[i + 1].timestamp
    for p in (0, 1):
        for v in (0, 1):
            want = []
            for t, q, w, text in given:
                if (q, w) == (p, v):
                    want = [x for x in want if x[0] != t] + [(t, text)]
            got = at(m, p, v)
            assert len(got) == len(want)
            for x in want:
                assert x in got


KINDS = {SliceType.Clefs: '*clefG2', SliceType.KeySigs: '*k[f#]', SliceType.TimeSigs: '*M4/4', SliceType.Tempos: '*MM100'}


@P.lemma(t1=TIME, t2=TIME, t3=TIME, kind1=OneOf(*KINDS), kind2=OneOf(*KINDS), p1=OneOf(0, 1), targets=[G + 'addTokenOfSliceType'])
def other_tokens(t1, t2, t3, kind1, kind2, p1):
    """an interpretation added at a time stands before the notes of that time and after everything earlier"""
    m = GridMeasure(HumGrid())
    m.addDataToken('4c', t1, 0, 0, 0, [1, 1])
    m.addDataToken('4d', t2, 1, 0, 0, [1, 1])
    m.addTokenOfSliceType(KINDS[kind1], t3, kind1, p1, 0, 0, [1, 1])
    m.addTokenOfSliceType(KINDS[kind2], t3, kind2, 1 - p1, 0, 0, [1, 1])
    for i in range(len(m.slices) - 1):
        now, then = m.slices[i], m.slices[i + 1]
        assert now.timestamp <= then.timestamp
        assert now.timestamp < then.timestamp or not now.isDataSlice
    assert len([s for s in m.slices if s.isDataSlice]) == (1 if t1 == t2 else 2)
    assert len(m.slices) == (1 if t1 == t2 else 2) + (1 if kind1 == kind2 else 2)
    assert (t3, KINDS[kind1]) in at(m, p1, 0) and (t3, KINDS[kind2]) in at(m, 1 - p1, 0)
    assert (t1, '4c') in at(m, 0, 0) and (t2, '4d') in at(m, 1, 0)


@P.lemma(t1=TIME, t2=TIME, late=OneOf(False, True), n=OneOf(1, 2), k=OneOf(0, 1, 2), p=OneOf(0, 1), sign=OneOf(False, True),
         targets=[G + 'addGraceToken'])
def grace_tokens(t1, t2, late, n, k, p, sign):
    """grace notes, counted from the note they precede, stand right before it in their order, whatever other parts have there"""
    if t1 >= t2:
        return
    m = GridMeasure(HumGrid())
    m.addDataToken('4c', t1, 0, 0, 0, [1, 1])
    if not late:
        m.addDataToken('4d', t2, 0, 0, 0, [1, 1])
    for i in range(1, n + 1):
        m.addGraceToken('8q' + 'abc'[i], t2, p, 0, 0, [1, 1], i)
    if sign and not late:
        m.addTokenOfSliceType('*clefG2', t2, SliceType.Clefs, 0, 0, 0, [1, 1])
    for i in range(1, k + 1):
        m.addGraceToken('8q' + 'efg'[i], t2, 1 - p, 0, 0, [1, 1], i)
    notes = [s for s in m.slices if s.isGraceSlice or s.isDataSlice]
    rest = notes[1:] if late else notes[1:-1]
    assert notes[0].isNoteSlice and notes[0].timestamp == t1
    assert all([s.isGraceSlice and s.timestamp == t2 for s in rest])
    assert [text_at(s, p) for s in rest if text_at(s, p) is not None] == ['8q' + 'abc'[i] for i in range(n, 0, -1)]
    assert [text_at(s, 1 - p) for s in rest if text_at(s, 1 - p) is not None] == ['8q' + 'efg'[i] for i in range(k, 0, -1)]
    if not late:
        assert notes[-1].isNoteSlice and notes[-1].timestamp == t2 and text_at(notes[-1], 0) == '4d'


@P.lemma(t1=TIME, t2=TIME, t3=TIME, p=OneOf(0, 1), first=OneOf(0, 1), targets=[G + 'addDataToken', G + 'addGraceToken'])
def notes_around_grace(t1, t2, t3, p, first):
    """a note added after a grace note keeps its own time: all lines stay in time order and the grace note right before its note"""
    if t1 >= t2:
        return
    m = GridMeasure(HumGrid())
    m.addDataToken('4c', t1, first, 0, 0, [1, 1])
    m.addDataToken('4d', t2, first, 0, 0, [1, 1])
    m.addGraceToken('8qe', t2, first, 0, 0, [1, 1], 1)
    m.addDataToken('4f', t3, p, 0, 1, [1, 1])
    for i in range(len(m.slices) - 1):
        now, then = m.slices[i], m.slices[i + 1]
        assert now.timestamp < then.timestamp or now.isGraceSlice and now.timestamp == then.timestamp
    assert (t3, '4f') in at(m, p, 1)
    assert at(m, first, 0) == [(t1, '4c'), (t2, '8qe'), (t2, '4d')]


def text_at(s, part):
    vs = s.parts[part].staves[0].voices
    return vs[0].token.text if vs and vs[0] is not None and vs[0].token is not None else None


# ---------------------------------------------------------------- from the grid to the file

class Lines:
    """what a HumdrumFile is given line by line"""
    def __init__(self):
        self.lines = []

    def appendLine(self, line):
        self.lines.append(line)

    def insertLine(self, where, line):
        self.lines.insert(where, line)


@P.lemma(a=TOKEN, b=TOKEN, c=TOKEN, voices=OneOf((1, 1), (2, 1), (1, 2)), empty=OneOf(False, True), what=OneOf(SliceType.Notes, SliceType.Clefs),
         targets=[S + 'transferTokens'])
def slice_line(a, b, c, voices, empty, what):
    """a slice is one line: parts from the last to the first, the voices of a part in order, gaps filled with null tokens"""
    m = GridMeasure(HumGrid())
    s = m.addTokenOfSliceType(a, 0, what, 0, 0, 0, [1, 1])
    if not empty:
        s.addToken(b, 1, 0, 0)
    if voices[0] == 2:
        s.addToken(c, 0, 0, 1)
    elif voices[1] == 2:
        s.addToken(c, 1, 0, 1)
    out = Lines()
    s.transferTokens(out, False)
    null = '.' if what == SliceType.Notes else '*'
    second = [null if empty else b] + ([c] if voices[1] == 2 else [])
    first = [a] + ([c] if voices[0] == 2 else [])
    assert len(out.lines) == 1
    assert [out.lines[0][i].text for i in range(out.lines[0].tokenCount)] == second + first


def grid(counts, text):
    """a grid of measures, counts[measure][part] voices of two quarter notes each; the notes name their part, measure and voice"""
    g = HumGrid()
    now = 0
    for b in range(len(counts)):
        m = g.appendMeasure()
        m.timestamp, m.duration, m.timeSigDur = now, 2, 2
        m.measureNumberString = str(b + 1)
        m.measureStylePerStaff = [MeasureStyle.Regular for _ in counts[b]]
        m.rightBarlineStylePerStaff = [MeasureStyle.Final for _ in counts[b]]
        for p in range(len(counts[b])):
            for v in range(counts[b][p]):
                for k in (0, 1):
                    m.addDataToken('4' + text + 'p%dm%dv%dk%d' % (p, b, v, k), now + k, p, 0, v, [1] * len(counts[b]))
        now += 2
    return g


def spines(lines):
    """[(line, part of each field)] following the spine manipulators, from the definition of the format; None if malformed"""
    now, out = None, []
    for n, f in enumerate(lines):
        if n == 0:
            now = list(range(len(f) - 1, -1, -1))
        if len(f) != len(now):
            return None
        out.append((f, now))
        new, i = [], 0
        while i < len(f):
            if f[i] == '*^':
                new = new + [now[i], now[i]]
            elif f[i] == '*v':
                j = i
                while j < len(f) and f[j] == '*v' and now[j] == now[i]:
                    j += 1
                if j == i + 1:
                    return None
                new.append(now[i])
                i = j - 1
            elif f[i] != '*-':
                new.append(now[i])
            i += 1
        now = new
    return out if now == [] else None


def fresh(it, vals):
    """the duration cache as it is at import; that earlier entries change no result is C01's cache invariant"""
    def mk(it2, cls, name, v):
        from pyvc.values import VDict
        return VDict() if name in EMPTY_AT_IMPORT else None
    it.opts['static_maps'] = mk


FILE = [H + x for x in ('transferTokens', 'manipulatorCheck', 'cleanupManipulators', 'addNullTokens', 'addMeasureLines', 'addLastBarline',
                        'manipulatorCheckTwoSlices', 'checkManipulatorContract', 'checkManipulatorExpand')] + [G + 'transferTokens']


def check_file(counts, text):
    out = Lines()
    assert grid(counts, text).transferTokens(out)
    got = spines([[line[i].text for i in range(line.tokenCount)] for line in out.lines])
    assert got is not None
    bar, notes = 0, []
    for f, parts in got:
        if f[0][0:1] == '=':
            bar += 1
            assert all([x == f[0] for x in f])
            assert f[0] == ('=' + str(bar) if bar <= len(counts) else '==')
        elif f[0][0:1] not in ('*', '!'):
            for p in (0, 1):
                mine = [x for x, q in zip(f, parts) if q == p]
                assert len(mine) == counts[bar - 1][p]
                notes.append(mine)
    assert bar == len(counts) + 1
    want = []
    for b in range(len(counts)):
        for k in (0, 1):
            for p in (0, 1):
                want.append(['4' + text + 'p%dm%dv%dk%d' % (p, b, v, k) for v in range(counts[b][p])])
    assert notes == want


SOME, MANY = OneOf(1, 2), OneOf(1, 2, 3)


@P.lemma(a0=SOME, a1=SOME, b0=SOME, b1=SOME, c0=SOME, text=Str(excl='\t\n 0123456789.%q', alpha='cdefg#', maxlen=4), statics=fresh, targets=FILE)
def grid_file(a0, a1, b0, b1, c0, text):
    """voices that come and go: the file splits and joins spines so that each measure has them, and every note is in its part, measure and voice"""
    check_file([(a0, b0), (a1, b1), (c0, 1)], text)


@P.lemma(a0=MANY, a1=MANY, b0=MANY, b1=MANY, statics=fresh, targets=FILE)
def grid_voices(a0, a1, b0, b1):
    """up to three voices in each part of each measure, coming and going at once in both"""
    check_file([(a0, b0), (a1, b1)], 'c')


# ---------------------------------------------------------------- both directions, whole scores (bounded)

SEED = Int(0, 10 ** 6)
R = 'converter21.humdrum.humdrumfile:HumdrumFile.'
M = 'converter21.mei.meireader:MeiReader.'
MW = 'converter21.mei.meiscore:MeiScore.'


@P.bounded('random scores of 1-3 parts, 2-4 measures, 1-2 voices, read from Humdrum text made from the definition of the format', seed=SEED, quick=150,
           thorough=4000, targets=[R + 'createMusic21Stream'])
def kern_read(seed):
    m = Music(seed)
    assert same(m, read_krn(m.kern())) is None


@P.bounded('the same music as a music21 score, written as Humdrum and read again', seed=SEED, quick=150, thorough=4000, targets=[W + 'write'])
def kern_written(seed):
    m = Music(seed)
    assert same(m, read_krn(write_krn(m.score(), False))) is None


@P.bounded('the same music read from MEI text made from the definition of the format', seed=SEED, quick=150, thorough=4000, targets=[M + 'run'])
def mei_read(seed):
    m = Music(seed)
    assert same(m, read_mei(m.mei())) is None


@P.bounded('the same music as a music21 score, written as MEI and read again', seed=SEED, quick=150, thorough=4000, targets=[MW + 'annotateTies'])
def mei_written(seed):
    m = Music(seed)
    assert same(m, read_mei(write_mei(m.score(), False))) is None


@P.bounded('the same music from Humdrum to MEI and back', seed=SEED, quick=80, thorough=2000, targets=[W + 'write', M + 'run'])
def there_and_back(seed):
    m = Music(seed)
    there = read_mei(write_mei(read_krn(m.kern()), False))
    assert same(m, read_krn(write_krn(there, False))) is None


CHORDS = OneOf('ce', 'eg', 'ceg', 'ac', 'bdf')


@P.bounded('two staves of tied MEI chords', a=CHORDS, b=CHORDS, c=CHORDS, d=CHORDS, quick=200, thorough=1000, targets=[M + 'chordFromElement'])
def chord_ties(a, b, c, d):
    """the notes of a tied chord that are tied are those the next chord of its own staff repeats"""
    assert tied(read_mei(mei_chords((a, b), (c, d)))) == [sorted(set(a) & set(c)), sorted(set(b) & set(d))]
