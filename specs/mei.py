"""MEI attribute values <-> music21 objects, both ways."""
from pyvc.api import *
from fractions import Fraction
import random
import music21 as m21
from xml.etree.ElementTree import Element, TreeBuilder
from converter21.mei.m21objectconvert import M21ObjectConvert
from converter21.mei.meireader import MeiReader
from converter21.shared.m21utilities import M21Utilities
from specs._common import Rec
from specs._e2e import quiet, read_mei, write_mei

P = Prop('C12')
O = 'converter21.mei.m21objectconvert:M21ObjectConvert.'
R = 'converter21.mei.meireader:MeiReader.'
U = 'converter21.shared.m21utilities:M21Utilities.'
MUSIC21 = 'music21 and xml.etree are the real modules, evaluated on every case of the finite domain'


@native
def reader():
    with quiet():
        return MeiReader()


@native
def treebuilder():
    tb = TreeBuilder()
    tb.start('root', {})
    return tb


@native
def built(tb):
    """the elements a converter wrote"""
    tb.end('root')
    return list(tb.close())


@native
def element(tag, attr):
    return Element(tag, dict(attr))


# ---------------------------------------------------------------- durations

NAMES = {'maxima': 32, 'long': 16, 'breve': 8}
NAMES.update({str(2 ** i): Fraction(4, 2 ** i) for i in range(0, 12)})
M21TYPES = {32: 'maxima', 16: 'longa', 8: 'breve', 4: 'whole', 2: 'half', 1: 'quarter', Fraction(1, 2): 'eighth',
            Fraction(1, 4): '16th', Fraction(1, 8): '32nd'}
M21TYPES.update({Fraction(4, 2 ** i): str(2 ** i) + 'th' for i in range(6, 12)})


@P.lemma(dur=OneOf(*NAMES), dots=OneOf(0, 1, 2, 3, 4), extra=OneOf(None, 0, 1, 2), note=MUSIC21,
         targets=[R + 'durationFromAttributes', R + '_qlDurationFromAttr', U + 'makeDuration', O + 'm21DurationToMeiDurDotsGrace'])
def duration_from_mei(dur, dots, extra):
    """@dur (with @dots or <dot/> children) is its note value with its dots, and is written back as such"""
    attr = {'dur': dur}
    if extra is None and dots:
        attr['dots'] = str(dots)
    d = reader().durationFromAttributes(element('note', attr), dots if extra is not None else None)
    ql = NAMES[dur] * (2 - Fraction(1, 2 ** dots))
    assert d.quarterLength == ql and d.dots == dots and d.type == M21TYPES[NAMES[dur]]
    assert not d.tuplets and d.linked
    back = {}
    M21ObjectConvert.m21DurationToMeiDurDotsGrace(d, back)
    assert back == ({'dur': dur, 'dots': str(dots)} if dots else {'dur': dur})


@P.lemma(dur=OneOf('2', '4', '16', 'breve'), dots=OneOf(0, 1, 2), ges=OneOf(None, '1', '4', '8', '32', 'breve'), gdots=OneOf(None, 0, 1, 2, 3),
         note=MUSIC21, targets=[R + 'durationFromAttributes', O + 'm21DurationToMeiDurDotsGrace'])
def gestural_duration(dur, dots, ges, gdots):
    """@dur.ges and @dots.ges replace only how long the note sounds; both survive writing and reading"""
    attr = {'dur': dur}
    if dots:
        attr['dots'] = str(dots)
    if ges is not None:
        attr['dur.ges'] = ges
    if gdots is not None:
        attr['dots.ges'] = str(gdots)
    d = reader().durationFromAttributes(element('note', attr))
    sounds = NAMES[ges if ges is not None else dur]
    nd = gdots if gdots is not None else (0 if ges is not None else dots)
    sounds = sounds * (2 - Fraction(1, 2 ** nd))
    assert d.quarterLength == sounds and d.type == M21TYPES[NAMES[dur]] and d.dots == dots
    back = {}
    M21ObjectConvert.m21DurationToMeiDurDotsGrace(d, back)
    again = reader().durationFromAttributes(element('note', back))
    assert again.quarterLength == sounds and again.type == d.type and again.dots == dots


@P.lemma(durs=OneOf('4 8', '2 2 16', '1 1', '4 4 4 4', '8 7', 'x 4', 'breve 64', '4'), targets=[R + '_qlDurationFromAttr'])
def duration_sums(durs):
    """several values in one @dur add up; an unknown one makes the whole unknown"""
    parts = durs.split(' ')
    known = True
    total = 0
    for p in parts:
        if p in NAMES:
            total += NAMES[p]
        else:
            known = False
    got = reader()._qlDurationFromAttr(durs)
    assert got == (total if known else None)


@P.lemma(grace=OneOf('plain', 'slash', 'noslash', 'appogg', 'prev', 'foll'), dur=OneOf('eighth', 'quarter', '16th'), dots=OneOf(0, 1),
         note=MUSIC21, targets=[O + 'm21DurationToMeiDurDotsGrace'])
def grace_written(grace, dur, dots):
    """grace notes are written as accented or unaccented ones, with their visible value"""
    d = m21.duration.Duration(dur, dots=dots)
    d = d.getGraceDuration(appoggiatura=(grace == 'appogg'))
    if grace == 'slash' or grace == 'noslash':
        d.slash = grace == 'slash'
        d.stealTimePrevious = None
        d.stealTimeFollowing = None
    if grace == 'prev':
        d.stealTimePrevious = 0.5
    if grace == 'foll':
        d.stealTimePrevious = None
        d.stealTimeFollowing = 0.5
    attr = {}
    M21ObjectConvert.m21DurationToMeiDurDotsGrace(d, attr)
    assert attr['grace'] == ('acc' if grace in ('appogg', 'noslash', 'foll') else 'unacc')
    assert attr['dur'] == {'eighth': '8', 'quarter': '4', '16th': '16'}[dur]
    assert attr.get('dots', '0') == str(dots)
    assert 'dur.ges' not in attr


# ---------------------------------------------------------------- pitch

ALTERS = {'natural': 0, 'sharp': 1, 'double-sharp': 2, 'triple-sharp': 3, 'flat': -1, 'double-flat': -2, 'triple-flat': -3,
          'half-sharp': 0.5, 'one-and-a-half-sharp': 1.5, 'half-flat': -0.5, 'one-and-a-half-flat': -1.5}


@P.lemma(acc=OneOf(*ALTERS), ges=Bool(), note=MUSIC21,
         targets=[O + 'm21AccidToMeiAccid', O + 'm21AccidToMeiAccidGes', R + '_accidentalFromAttr', R + '_accidGesFromAttr'])
def accidentals(acc, ges):
    """every accidental, written and sounding, survives writing to MEI and reading back"""
    text = M21ObjectConvert.m21AccidToMeiAccidGes(acc) if ges else M21ObjectConvert.m21AccidToMeiAccid(acc)
    back = reader()._accidGesFromAttr(text) if ges else reader()._accidentalFromAttr(text)
    assert m21.pitch.Accidental(back).alter == ALTERS[acc]
    assert M21ObjectConvert.m21AccidToMeiAccid(back) == M21ObjectConvert.m21AccidToMeiAccid(acc)


@P.lemma(text=OneOf('s', 'f', 'ss', 'x', 'ff', 'xs', 'ts', 'tf', 'n', 'nf', 'ns', 'su', 'sd', 'fu', 'fd', 'nu', 'nd', '1qf', '3qf', '1qs', '3qs'),
         note=MUSIC21, targets=[R + '_accidentalFromAttr'])
def accidental_values(text):
    """@accid values alter by what the MEI guidelines define"""
    want = {'s': 1, 'f': -1, 'ss': 2, 'x': 2, 'ff': -2, 'xs': 3, 'ts': 3, 'tf': -3, 'n': 0, 'nf': -1, 'ns': 1, 'su': 1.5, 'sd': 0.5,
            'fu': -0.5, 'fd': -1.5, 'nu': 0.5, 'nd': -0.5, '1qf': -0.5, '3qf': -1.5, '1qs': 0.5, '3qs': 1.5}[text]
    assert m21.pitch.Accidental(reader()._accidentalFromAttr(text)).alter == want


@P.lemma(step=OneOf(*'CDEFGAB'), octave=Int(), targets=[O + 'm21DisplayPitchToMeiLoc', O + 'meiLocToM21DisplayName', U + 'pitchToBase7',
                                                          U + 'base7ToDisplayName'])
def staff_location(step, octave):
    """@loc counts steps from the bottom line of a treble staff (E4); it reads back as the same step and octave"""
    loc = M21ObjectConvert.m21DisplayPitchToMeiLoc(Rec(step=step, implicitOctave=octave))
    assert loc == str(7 * (octave - 4) + 'CDEFGAB'.index(step) - 2)
    assert M21ObjectConvert.meiLocToM21DisplayName(loc) == step + str(octave)


@P.lemma(step=OneOf(*'CDEFGAB'), octave=Int(0), sharps=OneOf(0, 1, 2, 3, 4), flats=OneOf(0, 1, 2, 3, 4), tail=Str(alpha='ab '),
         requires=lambda step, octave, sharps, flats, tail: sharps == 0 or flats == 0, targets=[U + 'splitM21PitchNameIntoNameAccidOctave'])
def pitch_name_parts(step, octave, sharps, flats, tail):
    acc = '#' * sharps + '-' * flats
    got = M21Utilities.splitM21PitchNameIntoNameAccidOctave(step + acc + str(octave))
    assert got == (step, acc if acc else 'n', str(octave))
    assert M21Utilities.splitM21PitchNameIntoNameAccidOctave(step + acc) == (step + acc, 'n', '')


@P.lemma(step=OneOf(*'CDEFGAB'), acc=OneOf(None, '#', '-', '##', '--', 'n', '~'), octave=OneOf('', 0, '0', 4, '9'), note=MUSIC21,
         targets=[U + 'safePitch'])
def safe_pitch(step, acc, octave):
    p = M21Utilities.safePitch(step, acc, octave)
    assert p.step == step
    assert p.octave == (None if octave == '' else int(octave))
    assert p.alter == {None: 0, '#': 1, '-': -1, '##': 2, '--': -2, 'n': 0, '~': 0.5}[acc]
    assert (p.accidental is None) == (acc is None)
    assert M21Utilities.safePitch('', acc, octave).name == 'C'


@P.lemma(n=OneOf(*range(-7, 8)), note=MUSIC21, targets=[U + 'getAltersForKey'])
def implied_alters(n):
    """the alterations a key signature implies, in every octave"""
    alters = M21Utilities.getAltersForKey(m21.key.KeySignature(n))
    order = 'FCGDAEB' if n > 0 else 'BEADGCF'
    want = [0] * 7
    for i in range(abs(n)):
        want['CDEFGAB'.index(order[i])] = 1 if n > 0 else -1
    assert alters == want * 10
    assert M21Utilities.getAltersForKey(None) == [0] * 70


# ---------------------------------------------------------------- clefs, keys, meters, transpositions

SIGNS = [(s, o, n) for s in 'GFC' for o in (-3, -2, -1, 0, 1, 2, 3) for n in (1, 2, 3, 4, 5)]


@P.lemma(clef=OneOf(*SIGNS), note=MUSIC21, targets=[O + 'm21ClefToMei', R + '_clefFromElement', R + '_getOctaveShift'])
def clefs(clef):
    """sign, line and octave of every clef survive writing to MEI and reading back"""
    sign, octave, line = clef
    attr = {'shape': sign, 'line': str(line)}
    if octave:
        attr['dis'] = {1: '8', 2: '15', 3: '22'}[abs(octave)]
        attr['dis.place'] = 'above' if octave > 0 else 'below'
    c = reader()._clefFromElement(element('clef', attr))
    assert c.sign == sign and c.line == line and (c.octaveChange or 0) == octave
    tb = treebuilder()
    M21ObjectConvert.m21ClefToMei(c, m21.spanner.SpannerBundle(), tb)
    out = built(tb)
    assert len(out) == 1 and out[0].tag == 'clef' and dict(out[0].attrib) == attr


@P.lemma(which=OneOf('perc', 'TAB', 'none'), note=MUSIC21, targets=[O + 'm21ClefToMei', R + '_clefFromElement'])
def other_clefs(which):
    tb = treebuilder()
    if which == 'none':
        M21ObjectConvert.m21ClefToMei(m21.clef.NoClef(), m21.spanner.SpannerBundle(), tb)
        assert built(tb) == []
    else:
        c = reader()._clefFromElement(element('clef', {'shape': which}))
        assert c.sign == {'perc': 'percussion', 'TAB': 'TAB'}[which]
        M21ObjectConvert.m21ClefToMei(c, m21.spanner.SpannerBundle(), tb)
        assert built(tb)[0].get('shape') == which


@P.lemma(n=Int(0), sgn=OneOf('s', 'f', ''), targets=[R + '_sharpsFromAttr'])
def key_signature_values(n, sgn):
    """Ns is N sharps, Nf is N flats, 0 is neither"""
    if sgn == '':
        assert MeiReader._sharpsFromAttr('0') == 0
        assert MeiReader._sharpsFromAttr(None) == 0
        assert MeiReader._sharpsFromAttr('') == 0
    else:
        assert MeiReader._sharpsFromAttr(str(n) + sgn) == (n if sgn == 's' else -n)


@P.lemma(n=OneOf(*range(-12, 13)), note=MUSIC21, targets=[O + 'm21KeySigToMei', R + '_keySigFromElement', R + '_keySigFromAttrs', R + '_sharpsFromAttr'])
def key_signatures(n):
    tb = treebuilder()
    M21ObjectConvert.m21KeySigToMei(m21.key.KeySignature(n), m21.spanner.SpannerBundle(), tb)
    elem = built(tb)[0]
    assert elem.tag == 'keySig' and elem.get('sig') == ('0' if n == 0 else str(abs(n)) + ('s' if n > 0 else 'f'))
    k = reader()._keySigFromElement(elem)
    assert k.sharps == n and not isinstance(k, m21.key.Key)


FIFTHS = 'FCGDAEB'
MODES = {'major': 0, 'ionian': 0, 'mixolydian': -1, 'dorian': -2, 'minor': -3, 'aeolian': -3, 'phrygian': -4, 'locrian': -5, 'lydian': 1}
KEYS = [(t + a, m, FIFTHS.index(t) - 1 + 7 * {'': 0, '#': 1, '-': -1}[a] + MODES[m]) for t in 'CDEFGAB' for a in ('', '#', '-') for m in MODES
        if abs(FIFTHS.index(t) - 1 + 7 * {'': 0, '#': 1, '-': -1}[a] + MODES[m]) <= 7]


@P.lemma(key=OneOf(*KEYS), lie=OneOf(0, 1, -2), note=MUSIC21, targets=[O + 'm21KeySigToMei', R + '_keySigFromElement', R + '_keySigFromAttrs'])
def keys(key, lie):
    """tonic, mode and signature of a key survive; where @pname and @sig disagree the signature counts"""
    tonic, mode, n = key
    tb = treebuilder()
    M21ObjectConvert.m21KeySigToMei(m21.key.Key(tonic, mode), m21.spanner.SpannerBundle(), tb)
    elem = built(tb)[0]
    if lie:
        elem.set('sig', '0' if n + lie == 0 else str(abs(n + lie)) + ('s' if n + lie > 0 else 'f'))
    k = reader()._keySigFromElement(elem)
    assert k.sharps == n + lie
    if not lie:
        assert isinstance(k, m21.key.Key) and k.tonic.name == tonic and k.mode == mode


@P.lemma(top=OneOf(*range(1, 25)), bot=OneOf(1, 2, 4, 8, 16, 32, 64), sym=OneOf(None, 'common', 'cut'), pre=OneOf('', 'meter.'), note=MUSIC21,
         targets=[O + 'm21TimeSigToMei', R + '_timeSigFromAttrs', R + 'timeSigFromElement'])
def meters(top, bot, sym, pre):
    attr = {pre + 'count': str(top), pre + 'unit': str(bot)}
    if sym is not None:
        attr[pre + 'sym'] = sym
    ts = MeiReader._timeSigFromAttrs(element('x', attr), pre)
    assert ts.numerator == top and ts.denominator == bot
    fits = (sym == 'common' and top == 4 and bot == 4) or (sym == 'cut' and top == 2 and bot == 2)
    assert (ts.symbol or None) == (sym if fits else None)
    tb = treebuilder()
    M21ObjectConvert.m21TimeSigToMei(ts, m21.spanner.SpannerBundle(), tb)
    elem = built(tb)[0]
    again = reader().timeSigFromElement(elem)
    assert again.numerator == top and again.denominator == bot and again.symbol == ts.symbol


@P.lemma(sym=OneOf('common', 'cut'), note=MUSIC21, targets=[R + '_timeSigFromAttrs'])
def meter_symbols(sym):
    """a symbol alone is the meter it stands for; nothing is no meter"""
    ts = MeiReader._timeSigFromAttrs(element('x', {'sym': sym}))
    assert (ts.numerator, ts.denominator) == ((4, 4) if sym == 'common' else (2, 2)) and ts.symbol == sym
    assert MeiReader._timeSigFromAttrs(element('x', {'count': '3'})) is None


MAJOR = (0, 2, 4, 5, 7, 9, 11)
PAIRS = [(d, (12 * (d // 7) + MAJOR[d % 7]) + a) for d in range(0, 16) for a in (-1, 0, 1)]
PAIRS = PAIRS + [(-d, -c) for d, c in PAIRS if d > 0]


@P.lemma(dc=OneOf(*PAIRS), form=OneOf('int', 'float'), note=MUSIC21, targets=[R + '_transpositionFromAttrs'])
def transpositions(dc, form):
    """@trans.diat and @trans.semi give the interval of that many steps and semitones"""
    d, c = dc
    i = MeiReader._transpositionFromAttrs(element('x', {'trans.diat': str(d) + ('.0' if form == 'float' else ''), 'trans.semi': str(c)}))
    assert i.semitones == c and i.generic.staffDistance == d


# ---------------------------------------------------------------- barlines

BARS = {'regular': '', 'heavy-light': '', 'heavy': 'heavy', 'dotted': 'dotted', 'dashed': 'dashed', 'double': 'dbl', 'final': 'end', 'none': 'invis',
        'tick': '', 'short': '', 'heavy-heavy': 'dblheavy'}


@native
def barline(kind):
    if kind is None:
        return None
    if kind in ('start', 'end'):
        return m21.bar.Repeat(direction=kind)
    return m21.bar.Barline(kind)


@P.lemma(kind_=OneOf(*BARS, 'start', 'end'), note=MUSIC21, targets=[O + 'm21BarlineToMeiMeasureBarlineAttr', R + '_barlineFromAttr'])
def barlines(kind_):
    """every barline type can be written; those MEI knows read back as the same type and repeat direction"""
    text = M21ObjectConvert.m21BarlineToMeiMeasureBarlineAttr(barline(kind_), {})
    back = reader()._barlineFromAttr(text if text else 'single')
    if kind_ == 'start' or kind_ == 'end':
        assert isinstance(back, m21.bar.Repeat) and back.direction == kind_
    elif BARS[kind_]:
        assert back.type == kind_ and not isinstance(back, m21.bar.Repeat)
    else:
        assert back.type == 'regular'


ALLBARS = list(BARS) + ['start', 'end']


@P.lemma(right=OneOf(None, *ALLBARS), left=OneOf(None, *ALLBARS), note=MUSIC21,
         targets=[O + 'm21BarlinesToMeiMeasureBarlineAttr', O + 'meiMeasureBarlineAttrCombine', R + '_makeBarlines'])
def two_barlines(right, left):
    """the right barline of a measure and the left one of the next make one MEI barline: no visible repeat is lost or invented,
    and a barline that stands alone keeps its type"""
    text = M21ObjectConvert.m21BarlinesToMeiMeasureBarlineAttr(barline(right), barline(left), {})
    elem = element('measure', {'n': '1', 'right': text} if text else {'n': '1'})
    m = m21.stream.Measure()
    staves = reader()._makeBarlines(elem, {'1': m})
    r = m.rightBarline
    nxt = staves.get('next @left')
    ends = isinstance(r, m21.bar.Repeat) and r.direction == 'end'
    starts = isinstance(nxt, m21.bar.Repeat) and nxt.direction == 'start'
    if right != 'none' and left != 'none':
        assert ends == (right == 'end' or left == 'end')
        assert starts == (right == 'start' or left == 'start')
    else:
        assert not (ends and right != 'end' and left != 'end')
        assert not (starts and right != 'start' and left != 'start')
    if not ends and not starts:
        plain = (None, 'regular', 'heavy-light', 'tick', 'short')
        if right in plain and left in plain:
            assert r.type == 'regular'
        elif left in plain or left == right:
            assert r.type == right
        elif right in plain:
            assert r.type == left


@P.lemma(side=OneOf('left', 'right'), text=OneOf('dashed', 'dotted', 'dbl', 'end', 'invis', 'single', 'rptstart', 'rptend', 'rptboth', 'heavy', 'dblheavy'),
         note=MUSIC21, targets=[R + '_makeBarlines', R + '_barlineFromAttr'])
def measure_barlines(side, text):
    """@left and @right of a measure draw the barline they name, on the side they name, in every staff"""
    elem = element('measure', {side: text})
    m1 = m21.stream.Measure()
    m2 = m21.stream.Measure()
    staves = reader()._makeBarlines(elem, {'1': m1, '2': m2})
    kinds = {'dashed': 'dashed', 'dotted': 'dotted', 'dbl': 'double', 'end': 'final', 'invis': 'none', 'single': 'regular', 'heavy': 'heavy',
             'dblheavy': 'heavy-heavy'}
    for m in (m1, m2):
        b = m.leftBarline if side == 'left' else m.rightBarline
        if text.startswith('rpt'):
            if side == 'left':
                if text != 'rptend':
                    assert isinstance(b, m21.bar.Repeat) and b.direction == 'start'
            elif text == 'rptstart':
                assert not isinstance(b, m21.bar.Repeat)
                assert staves['next @left'].direction == 'start'
            else:
                assert isinstance(b, m21.bar.Repeat) and b.direction == 'end'
                if text == 'rptboth':
                    assert staves['next @left'].direction == 'start'
        elif side == 'left' and text == 'single':
            assert b is None
        else:
            assert b.type == kinds[text] and not isinstance(b, m21.bar.Repeat)
        if side == 'left':
            assert m.rightBarline.type == 'regular'
        else:
            assert m.leftBarline is None


# ---------------------------------------------------------------- articulations, ties, stems, fonts

ARTICS = ['Accent', 'Staccato', 'Tenuto', 'Staccatissimo', 'StrongAccent', 'Spiccato', 'Doit', 'Plop', 'Falloff', 'DownBow', 'UpBow', 'Harmonic',
          'SnapPizzicato', 'Stopped', 'OpenString', 'DoubleTongue', 'TripleTongue', 'OrganToe', 'OrganHeel']


@P.lemma(a=OneOf(*ARTICS), b=OneOf(None, 'Accent', 'Staccato', 'UpBow'), place=OneOf(None, 'above', 'below'), note=MUSIC21,
         targets=[O + 'm21ArticulationsToMei', R + '_makeArticList', R + '_articulationsFromAttr'])
def articulations(a, b, place):
    """each articulation is written as one MEI articulation, in order, and reads back as the same kind and placement"""
    want = [getattr(m21.articulations, n)() for n in (a, b) if n is not None]
    if place is not None:
        want[0].placement = place
    tb = treebuilder()
    M21ObjectConvert.m21ArticulationsToMei(want, tb)
    elems = built(tb)
    assert len(elems) == len(want)
    got = [g for e in elems for g in reader()._makeArticList(e.get('artic'), e)]
    assert [g.classes[0] for g in got] == [n for n in (a, b) if n is not None]
    if place is not None:
        assert got[0].placement == place
    flat = reader()._makeArticList(' '.join([e.get('artic') for e in elems]))
    assert [g.classes[0] for g in flat] == [n for n in (a, b) if n is not None]


@P.lemma(pre=OneOf('', 'acc ', 'stacc ten '), targets=[R + '_makeArticList'], note=MUSIC21)
def double_articulations(pre):
    n = len(pre.split())
    got = [g.classes[0] for g in reader()._makeArticList(pre + 'marc-stacc')]
    assert got[n:] == ['StrongAccent', 'Staccato'] and len(got) == n + 2
    got = [g.classes[0] for g in reader()._makeArticList(pre + 'ten-stacc')]
    assert got[n:] == ['Tenuto', 'Staccato'] and len(got) == n + 2


@P.lemma(attr=OneOf('i', 'm', 't', 'ti', 'it'), note=MUSIC21, targets=[R + '_tieFromAttr'])
def ties(attr):
    assert MeiReader._tieFromAttr(attr).type == {'i': 'start', 'm': 'continue', 't': 'stop', 'ti': 'continue', 'it': 'continue'}[attr]


@P.lemma(style=OneOf(None, 'normal', 'italic', 'bold', 'bolditalic'), weight=OneOf(None, 'normal', 'bold'),
         targets=[O + 'meiFontStyleAndWeightToM21FontStyle', O + 'm21FontStyleAndWeightToMei'])
def fonts(style, weight):
    """slant and weight of text survive; an explicit weight overrides that of the style"""
    s, w = M21ObjectConvert.m21FontStyleAndWeightToMei(style, weight)
    back = M21ObjectConvert.meiFontStyleAndWeightToM21FontStyle(s, w)
    slanted = style == 'italic' or style == 'bolditalic'
    heavy = weight == 'bold' if weight is not None else (style == 'bold' or style == 'bolditalic')
    assert back == ('bolditalic' if slanted and heavy else 'italic' if slanted else 'bold' if heavy else 'normal')


@P.lemma(dis=OneOf(None, '8', '15', '22', '9'), place=OneOf(None, 'above', 'below'), targets=[R + '_getOctaveShift'])
def octave_displacement(dis, place):
    n = {None: 0, '8': 1, '15': 2, '22': 3, '9': 0}[dis]
    assert MeiReader._getOctaveShift(dis, place) == (-n if place == 'below' else n)


# ---------------------------------------------------------------- time stamps

@P.lemma(off=Real(dens=(1, 2, 4, 8, 16, 32)), unit=Int(1), none=Bool(), targets=[O + '_offsetToBeat', R + '_beatToOffset'],
         note='machine floats are treated as the rationals they denote; a meter is read only through denominator')
def beats(off, unit, none):
    """offset 0 is beat 1, a beat is one meter unit (a quarter without a meter), and beats convert back to the same offset"""
    ts = None if none else Rec(denominator=unit)
    beat = M21ObjectConvert._offsetToBeat(off, ts)
    assert beat == 1 + off * (4 if none else unit) / 4
    assert MeiReader._beatToOffset(beat, ts) == off


DENS = (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 24, 32, 48, 64, 96, 128, 192, 256, 384, 512, 768)


@P.bounded('beats with the denominators of DENS in six meters, up to beat 32', den=OneOf(*DENS), unit=OneOf(1, 2, 4, 8, 16, 32), quick=150, thorough=1500,
           targets=[O + '_offsetToBeat', O + 'floatToStringWithDecimalPlacesMinMax', R + 'tstampStrToOffsetQL', R + '_preFracLimitDenominator', R + '_beatToOffset'])
def time_stamps(den, unit):
    """the text of a time stamp reads back as exactly the offset it was written for, if its beat has a denominator up to 768"""
    ts = m21.meter.TimeSignature('4/' + str(unit))
    r = reader()
    for i in list(range(0, min(2 * den, 400))) + [den * k + j for k in (3, 9, 11, 15, 31) for j in range(0, den, 1 + den // 40)]:
        off = m21.common.opFrac(Fraction(i, den) * Fraction(4, unit))
        beat = M21ObjectConvert._offsetToBeat(off, ts)
        text = M21ObjectConvert.floatToStringWithDecimalPlacesMinMax(beat, 1, 6)
        assert r._beatToOffset(r.tstampStrToOffsetQL(text), ts) == off, (i, text)


HEADS = {'normal': None, 'cross': '+', 'diamond': 'diamond', 'triangle': 'isotriangle', 'rectangle': 'rectangle', 'slash': 'slash', 'square': 'square', 'x': 'x'}


@native
def styled(head, stem, color, cue, hidden):
    n = m21.note.Note('C4', quarterLength=1)
    n.notehead, n.stemDirection = head, stem
    if color:
        n.style.color = color
    if cue:
        n.style.noteSize = 'cue'
    if hidden:
        n.style.hideObjectOnPrint = True
    return n


@P.lemma(head=OneOf(*HEADS), stem=OneOf('up', 'down', 'noStem', 'unspecified'), color=OneOf(None, 'red'), cue=OneOf(False, True), hidden=OneOf(False, True),
         targets=[O + '_addStylisticAttributes'], note=MUSIC21)
def style_written(head, stem, color, cue, hidden):
    """note head, stem, colour, cue size and visibility are written as the MEI attributes for them, and nothing else is"""
    attr = {}
    M21ObjectConvert._addStylisticAttributes(styled(head, stem, color, cue, hidden), attr)
    want = {}
    if HEADS[head] is not None:
        want['head.shape'] = HEADS[head]
    if stem == 'noStem':
        want['stem.visible'] = 'false'
    elif stem != 'unspecified':
        want['stem.dir'] = stem
    if color:
        want['color'] = color
    if cue:
        want['cue'] = 'true'
    if hidden:
        want['visible'] = 'false'
    assert attr == want


@P.lemma(own=OneOf('none', None, 'above', 'below'), styles=OneOf('none', None, 'above', 'below'), align=OneOf('none', None, 'middle'), y=OneOf(None, 10, -10, 0),
         slur=OneOf(False, True), targets=[O + 'm21PlacementToMei'], note=MUSIC21)
def placement_written(own, styles, align, y, slur):
    """the placement of an object, else of its style, else the sign of its vertical position"""
    own = None if slur and own == 'none' else own          # a slur always has a placement, perhaps None
    place = own if own != 'none' else styles if styles != 'none' else None
    if place is None and y and (own != 'none' or styles != 'none'):
        place = 'above' if y > 0 else 'below'
    if place == 'below' and align == 'middle' and not slur:
        place = 'between'
    assert M21ObjectConvert.m21PlacementToMei(placed(own, styles, align, y, slur)) == place


@native
def placed(own, styles, align, y, slur):
    class Style:
        pass

    class Thing(m21.spanner.Slur if slur else object):
        pass
    o = Thing.__new__(Thing)
    st = Style()
    st.absoluteY = y
    if styles != 'none':
        st.placement = styles
    if align != 'none':
        st.alignVertical = align
    if slur:
        m21.spanner.Slur.__init__(o)
    o.__dict__['_st'] = st
    Thing.hasStyleInformation = property(lambda self: True)
    Thing.style = property(lambda self: st)
    if own != 'none':
        o.placement = own
    return o


@P.bounded('every combination of note head, stem, colour, cue size, written as MEI and read again', head=OneOf(*HEADS), stem=OneOf('up', 'down', 'noStem'),
           color=OneOf(None, 'red', '#00FF00'), cue=OneOf(False, True), hidden=OneOf(False, True), quick=150, thorough=2000,
           targets=[O + '_addStylisticAttributes', R + 'noteFromElement'])
def style_survives(head, stem, color, cue, hidden):
    s = m21.stream.Score()
    p = m21.stream.Part()
    m = m21.stream.Measure(number=1)
    m.append([m21.meter.TimeSignature('1/4'), styled(head, stem, color, cue, hidden)])
    p.append(m)
    s.append(p)
    n = read_mei(write_mei(s, False)).recurse().notes[0]
    assert (n.notehead, n.stemDirection, n.style.color, n.style.noteSize == 'cue', bool(n.style.hideObjectOnPrint)) == (head, stem, color, cue, hidden)
