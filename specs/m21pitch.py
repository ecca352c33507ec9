"""**kern pitch text <-> music21 pitch (step, accidental, octave)."""
from pyvc.api import *
import music21 as m21
from converter21.humdrum.convert import Convert
from converter21.humdrum.m21convert import M21Convert
from specs._common import Rec
from specs.pitch import diatonic_pc, octave_number, KERN, slot, VALID40

P = Prop('C03')
M = 'converter21.humdrum.m21convert:M21Convert.'
STEPS = 'CDEFGAB'
SUB = Str(excl=' ', alpha='abcgABCGr#-n4.X', words=[k for k in KERN if ' ' not in k])


def _acc_step(n, ch):
    return (n + (1 if ch == "#" else 0) - (1 if ch == "-" else 0),)


ACC1 = Fold('acc1', dict(n=0), _acc_step)


def accid_text(n):
    return '#' * n if n > 0 else '-' * -n if n < 0 else ''


@P.contract(M + 'm21PitchName', folds=[(ACC1, 'subTokenStr')], subTokenStr=SUB)
def pitch_name(subTokenStr):
    d = diatonic_pc(subTokenStr)
    if d < 0:
        return ''
    return STEPS[d] + accid_text(ACC1(subTokenStr)[0])


@P.contract(M + 'm21PitchNameWithOctave', subTokenStr=SUB)
def pitch_name_octave(subTokenStr):
    o = octave_number(subTokenStr)
    return pitch_name(subTokenStr) + (str(o) if o != -1000 else '')


@P.contract(M + 'm21StepName', subTokenStr=SUB)
def step_name(subTokenStr):
    d = diatonic_pc(subTokenStr)
    return None if d < 0 else STEPS[d]


@P.contract(M + 'kernPitchFromM21OctaveAndStep', m21Octave=OneOf(*range(-8, 17)), m21Step=OneOf(*STEPS), _owner=Const(None))
def kern_from_octave_and_step(m21Octave, m21Step, _owner):
    if m21Octave > 3:
        return m21Step.lower() * (m21Octave - 3)
    return m21Step * (4 - m21Octave)


class Owner:
    def __init__(self):
        self.reported = []

    def reportEditorialAccidentalToOwner(self, style):
        self.reported.append(style)
        return {'parentheses': 'i', 'bracket': 'j', 'both': 'k'}.get(style, '?')


ACCIDENTALS = [None] + [(a, shown, style) for a in (-3, -2, -1, 0, 1, 2, 3) for shown in (None, False, True)
                        for style in ('normal', 'parentheses', 'bracket', 'both')] + [(a, None, 'normal') for a in (0.5, -0.5, 1.5, -1.5)]


@P.lemma(step=OneOf('C', 'F', 'B'), octave=OneOf(None, 0, 3, 4, 8), accid=OneOf(*ACCIDENTALS),
         targets=[M + 'kernPitchFromM21Pitch', M + 'accidentalInfo'],
         note='a music21 pitch is read only through step, octave, implicitOctave and accidental.alter/displayStatus/displayStyle')
def pitch_to_kern(step, octave, accid):
    """the kern text spells the step, octave and alteration, and marks explicit and editorial accidentals"""
    has = accid is not None
    alter, shown, style = accid if has else (0, None, 'normal')
    acc = Rec(alter=alter, displayStatus=shown, displayStyle=style) if has else None
    owner = Owner()
    text = M21Convert.kernPitchFromM21Pitch(Rec(step=step, octave=octave, implicitOctave=4, accidental=acc), owner)
    o = 4 if octave is None else octave
    body = step.lower() * (o - 3) if o > 3 else step * (4 - o)
    mark = ''
    if has and alter in (0.5, -0.5, 1.5, -1.5):
        mark = 'n'                      # there are no quarter tones in **kern
    elif has:
        body += accid_text(alter)
        if shown and style != 'normal':
            mark = ('n' if alter == 0 else '') + {'parentheses': 'i', 'bracket': 'j', 'both': 'k'}[style]
        elif shown:
            mark = 'n' if alter == 0 else 'X'
    assert text == body + mark
    assert owner.reported == ([style] if has and shown and style != 'normal' else [])


@P.lemma(step=OneOf(*STEPS), octave=OneOf(-1, 0, 1, 2, 3, 4, 5, 6, 9), alter=OneOf(-4, -3, -2, -1, 0, 1, 2, 3, 4),
         shown=OneOf(None, True), dur=OneOf('8.'), targets=[M + 'kernPitchFromM21Pitch', M + 'm21PitchNameWithOctave'],
         note='music21.pitch.Pitch is the real class, evaluated on every case of the finite domain')
def m21_kern_m21(step, octave, alter, shown, dur):
    """music21 pitch -> kern -> music21 pitch keeps step, octave and alteration, with any rhythm text around it"""
    p = m21.pitch.Pitch(step=step, octave=octave)
    if alter or shown:
        p.accidental = m21.pitch.Accidental(alter)
        p.accidental.displayStatus = shown
    k = M21Convert.kernPitchFromM21Pitch(p, None)
    name = M21Convert.m21PitchNameWithOctave(dur + k)
    assert name == step + accid_text(alter) + str(octave)
    if octave >= 0:
        q = m21.pitch.Pitch(name)
        assert q.step == step and q.octave == octave and q.alter == alter
    assert M21Convert.m21StepName(dur + k) == step
    assert M21Convert.m21PitchName(k) == step + accid_text(alter)


@P.contract(M + 'base40ToM21PitchName', b40=OneOf(*VALID40))
def base40_name(b40):
    d, a = slot(b40 % 40)
    return STEPS[d] + accid_text(a) + str(b40 // 40)


@P.lemma(b40=OneOf(*[b for b in VALID40 if b < 400]), targets=[M + 'base40ToM21Pitch'])
def base40_pitch(b40):
    p = M21Convert.base40ToM21Pitch(b40)
    d, a = slot(b40 % 40)
    assert p.step == STEPS[d] and p.alter == a and p.octave == b40 // 40
    assert M21Convert.kernPitchFromM21Pitch(p, None) == Convert.base40ToKern(b40)


@P.lemma(octave=OneOf(*range(-8, 17)), step=OneOf(*STEPS), targets=[M + 'kernPitchFromM21Unpitched'])
def unpitched(octave, step):
    """an unpitched note keeps its staff position, except the default one which is left implicit"""
    text = M21Convert.kernPitchFromM21Unpitched(Rec(displayOctave=octave, displayStep=step))
    if octave == 4 and step == 'B':
        assert text == 'R'
    else:
        assert text[0] == 'R'
        assert Convert.kernToOctaveNumber(text) == octave
        assert STEPS[Convert.kernToDiatonicPC(text)] == step
