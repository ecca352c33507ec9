"""Barlines: humdrum barline text <-> pairs of music21 barlines."""
from pyvc.api import *
import music21 as m21
from converter21.humdrum.convert import Convert
from converter21.humdrum.m21convert import M21Convert
from converter21.humdrum.gridcommon import MeasureStyle, MeasureVisualStyle, MeasureType, FermataStyle

P = Prop('C05')
M = 'converter21.humdrum.m21convert:M21Convert.'
CV = 'converter21.humdrum.convert:Convert.'
NOTE = 'music21.bar is the real module, evaluated on every case of the finite domain'

# text after '=' and the measure number: (left barline of the next measure, right barline of the previous one)
PLAIN = {'': 'regular', '||': 'double', '!!': 'heavy-heavy', '!|': 'heavy-light', "'": 'short', '`': 'tick', '.': 'dotted',
         '-': 'none', '!': 'heavy', '|!': 'final', '|': 'regular', ':': 'dashed'}
REPEAT = {'|': 'regular', '!': 'heavy', '!|': 'heavy-light', '|!': 'final', '!!': 'heavy-heavy', '||': 'double'}
CASES = [(k, ('', v), ('', v)) for k, v in PLAIN.items()]
CASES += [(':' + k, ('', 'regular'), ('end', v)) for k, v in REPEAT.items()]
CASES += [(k + ':', ('start', v), ('', 'regular')) for k, v in REPEAT.items()]
CASES += [(':' + k + ':', ('start', v), ('end', v)) for k, v in REPEAT.items()]
CASES += [(':!|!:', ('start', 'final'), ('end', 'heavy-light')), (':|!|:', ('start', 'heavy-light'), ('end', 'final'))]


@P.lemma(case=OneOf(*CASES), number=OneOf('', '0', '1', '12', '7a', '107'), fermata=OneOf('', ';', ';<', ';>'),
         targets=[M + 'm21BarlineFromHumdrumString'], note=NOTE)
def barline_meaning(case, number, fermata):
    """a barline's text determines the style and repeat direction on both of its sides"""
    style, left, right = case
    text = '=' + number + style + fermata
    for side, want in (('left', left), ('right', right)):
        b = M21Convert.m21BarlineFromHumdrumString(text, side)
        assert isinstance(b, m21.bar.Repeat) == (want[0] != '')
        assert want[0] == '' or b.direction == want[0]
        assert b.type == want[1]


@P.lemma(number=OneOf('', '12'), targets=[M + 'm21BarlineFromHumdrumString'], note=NOTE)
def double_equal_is_final(number):
    for side in ('left', 'right'):
        b = M21Convert.m21BarlineFromHumdrumString('==' + number, side)
        assert not isinstance(b, m21.bar.Repeat) and b.type == 'final'


STYLES = list(MeasureStyle)


@P.lemma(style=OneOf(*STYLES), number=OneOf('', '1', '23', '4b'),
         targets=[CV + 'measureStyleToHumdrumBarlineStyleStr', M + 'm21BarlineFromHumdrumString', M + 'combineTwoMeasureStyles',
                  M + 'measureStyleFromM21Barline'], note=NOTE)
def barline_round_trip(style, number):
    """style -> text -> music21 barlines on both sides -> style is the identity (dashed, which exports as regular, excepted)"""
    text = Convert.measureStyleToHumdrumBarlineStyleStr(style)
    text = '=' + text + number if style is MeasureStyle.Final else '=' + number + text
    left = M21Convert.measureStyleFromM21Barline(M21Convert.m21BarlineFromHumdrumString(text, 'left'))
    right = M21Convert.measureStyleFromM21Barline(M21Convert.m21BarlineFromHumdrumString(text, 'right'))
    back = M21Convert.combineTwoMeasureStyles(left, right)
    assert back is (MeasureStyle.Regular if style is MeasureStyle.Dashed else style)


BEGIN = [s for s in STYLES if s.mType in (MeasureType.NotRepeat, MeasureType.RepeatForward)]
END = [s for s in STYLES if s.mType in (MeasureType.NotRepeat, MeasureType.RepeatBackward)]


@P.lemma(begin=OneOf(*BEGIN), end=OneOf(*END), targets=[M + 'combineTwoMeasureStyles', M + 'getMeasureStyle'])
def combining(begin, end):
    """two adjacent barlines always combine, no repeat is lost or invented, and the more visible style survives"""
    s = M21Convert.combineTwoMeasureStyles(begin, end)
    fwd = begin.mType == MeasureType.RepeatForward
    back = end.mType == MeasureType.RepeatBackward
    want = MeasureType.RepeatBoth if fwd and back else MeasureType.RepeatForward if fwd \
        else MeasureType.RepeatBackward if back else MeasureType.NotRepeat
    assert s.mType == want
    if back and not fwd:
        assert s is end
    if begin.vStyle == end.vStyle:
        assert s.vStyle == begin.vStyle
    if not back:
        assert s.vStyle == begin.vStyle or s.vStyle == end.vStyle
        if not fwd:
            assert begin is not MeasureStyle.Regular or s is end
            assert end is not MeasureStyle.Regular or s is begin
    if end is MeasureStyle.Regular:
        assert s is begin


M21TYPES = {'regular': '', 'dotted': '.', 'dashed': '', 'heavy': '!', 'double': '||', 'final': '=', 'heavy-light': '!|',
            'heavy-heavy': '!!', 'tick': '`', 'short': "'", 'none': '-'}


@P.lemma(kind_=OneOf(*M21TYPES), targets=[M + 'measureStyleFromM21Barline'], note=NOTE)
def barline_text(kind_):
    b = m21.bar.Barline(kind_)
    assert Convert.measureStyleToHumdrumBarlineStyleStr(M21Convert.measureStyleFromM21Barline(b)) == M21TYPES[kind_]
    assert M21Convert.measureStyleFromM21Barline(None) is MeasureStyle.Regular


@P.lemma(begin=OneOf(*FermataStyle), end=OneOf(*FermataStyle),
         targets=[M + 'combineTwoFermataStyles', CV + 'fermataStyleToHumdrumFermataStyleStr'])
def fermatas(begin, end):
    """a fermata on either side shows, the following measure's own one first; its text starts with ;"""
    f = M21Convert.combineTwoFermataStyles(begin, end)
    none = FermataStyle.NoFermata
    assert f == (begin if begin != none else end)
    t = Convert.fermataStyleToHumdrumFermataStyleStr(f)
    assert t == {none: '', FermataStyle.Fermata: ';', FermataStyle.FermataAbove: ';>', FermataStyle.FermataBelow: ';<'}[f]


@native
def barline_with(fermata):
    b = m21.bar.Barline('regular')
    if fermata:
        b.pause = m21.expressions.Fermata()
        b.pause.type = fermata
    return b


@P.lemma(f=OneOf('', 'upright', 'inverted'), targets=[M + 'fermataStyleFromM21Barline', M + 'fermataStyleFromM21Fermata'], note=NOTE)
def barline_fermata(f):
    """a fermata above a barline is written above it, one below it below"""
    got = M21Convert.fermataStyleFromM21Barline(barline_with(f))
    if f == 'inverted':
        assert got == FermataStyle.FermataBelow
    elif f == 'upright':
        assert got in (FermataStyle.Fermata, FermataStyle.FermataAbove)
    else:
        assert got == FermataStyle.NoFermata
        assert M21Convert.fermataStyleFromM21Barline(None) == FermataStyle.NoFermata
