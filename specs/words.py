"""Lyrics, dynamics, hairpins, texts and tempo marks."""
from pyvc.api import *
import itertools
from fractions import Fraction
from specs._common import Rec
import music21 as m21
from converter21.humdrum import HumGrid, HumdrumFile, HumdrumToken, HumdrumWriter
from converter21.humdrum.gridmeasure import GridMeasure
from converter21.humdrum.m21convert import M21Convert
from specs._e2e import read_krn, write_krn, read_mei, write_mei
from specs._song import Song, differs

P = Prop('C17')
C = 'converter21.humdrum.m21convert:M21Convert.'
W = 'converter21.humdrum.humdrumwriter:HumdrumWriter.'
F = 'converter21.humdrum.humdrumfile:HumdrumFile.'
T = 'converter21.humdrum.humdrumtoken:HumdrumToken.'


@P.lemma(label=OneOf('1', '23', 'd', 'V1', '(solo', '1a', 'a+', '[', 'w', '.', '1.'), targets=[F + '_getVerseLabelText'])
def verse_label(label):
    """a verse label is its text; a number gets a full stop"""
    assert HumdrumFile._getVerseLabelText(HumdrumToken('*v:' + label)) == label + ('.' if label in ('1', '23') else '')


TEXTS = OneOf('la', '*ah', '!oh', '.', '  two  words ', '', 'a\tb', '\\n', '-x-')
ORDERS = OneOf((1,), (2,), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (1, 2, 3), (3, 1, 2), (2, 3, 1))


@native
def lyric_text(x):
    return ' '.join(x.split())


@P.lemma(order=ORDERS, a=TEXTS, b=OneOf('la', '!oh', ''), label=OneOf(None, 'V1', 7), targets=[W + '_addLyrics', W + '_cleanSpaces', 'converter21.humdrum.gridside:GridSide.setVerse'])
def lyrics_written(order, a, b, label):
    """each verse of a note goes to the spine of its number, whatever the order, and cannot be taken for a comment or interpretation"""
    texts = (a, b, 'third')
    m = GridMeasure(HumGrid())
    s = m.addDataToken('4c', 0, 0, 0, 0, [1])
    lyrics, want = [], {}
    for i in range(len(order)):
        lyrics.append(Rec(number=order[i], rawText=texts[i], identifier=label if label is not None and i == 0 else order[i]))
        want[order[i]] = lyric_text(texts[i])
    n = HumdrumWriter._addLyrics(Rec(_cleanSpaces=HumdrumWriter._cleanSpaces), m, s, 0, 0, Rec(m21Object=Rec(lyrics=lyrics)))
    assert n == max(order)
    sides = s.parts[0].staves[0].sides
    for v in range(1, n + 1):
        text = want.get(v, '')
        if text[0:1] in ('*', '!') and text != '':
            text = '\\' + text
        assert sides.getVerse(v - 1).text == (text if text != '' else '.')
    labels = [x for x in m.slices if not x.isDataSlice]
    if label is not None and label != order[0] and order != (2, 2):
        assert len(labels) == 1 and labels[0].parts[0].staves[0].sides.getVerse(order[0] - 1).text == '*v:' + str(label)
    elif label is None:
        assert len(labels) == 0


@P.lemma(text=OneOf(*[''.join(x) for n in range(5) for x in itertools.product('ab ', repeat=n)]), targets=[F + '_splitSyllableBySpaces'])
def split_by_spaces(text):
    """the pieces of a text split by spaces make up the text and hold none"""
    got = [text]
    HumdrumFile._splitSyllableBySpaces(got)
    assert ' '.join(got) == text
    assert all([' ' not in x for x in got])


# ---------------------------------------------------------------- dynamics

PLAIN = ['p', 'pp', 'ppppp', 'f', 'ff', 'ffff', 'mp', 'mf', 'sf', 'sfz', 'fz', 'ffz', 'rf', 'rfz', 'fp', 'sfp', 'sfzp', 'sfpp', 'ffp', 'sffz']
AROUND = [('', ''), ('( ', ' )'), ('[ ', ' ]'), ('{ ', ' }'), ('< ', ' >'), ('', ' sempre'), ('molto ', ''), ('piu ', ' ma dolce'), ('', '  legato'),
          ('sempre ', ' e mp')]
ED = {'(': 'paren', '[': 'brack', '{': 'curly', '<': 'angle'}


@P.lemma(plain=OneOf(*PLAIN), around=OneOf(*AROUND), place=OneOf(None, 'above', 'below'), staff=OneOf(0, 1), on=OneOf(False, True),
         targets=[C + 'getDynamicString', C + 'getDynamicParameters', C + 'getDynamicOnNoteParameters'])
def dynamics_written(plain, around, place, staff, on):
    """the sign is found in its words or brackets, and the layout says which words, brackets and placement it has"""
    d = dyn(around[0] + plain + around[1], place)
    sign = M21Convert.getDynamicString(d)
    pars = M21Convert.getDynamicOnNoteParameters(d) if on else M21Convert.getDynamicParameters(d, staff)
    if around == ('sempre ', ' e mp') and plain != 'mp':
        assert sign in (plain, 'mp')
    else:
        assert sign == plain
    want = ''
    if place is not None and not on:
        want = ':' + place[0] + ('=2' if staff == 1 else '')
    assert pars[0:len(want)] == want
    rest = pars[len(want):]
    if around[0][0:1] in ED and around[0] != '':
        assert rest == ':ed=' + ED[around[0][0]]
    elif around == ('', ''):
        assert rest == ''
    else:
        assert rest[0:3] == ':t='
        assert squeeze(rest[3:].replace('%s', sign)) == squeeze(d.value)


@native
def dyn(value, place):
    d = m21.dynamics.Dynamic(value)
    if place:
        d.placement = place
    return d


@native
def squeeze(text):
    return ' '.join(text.split())


@P.lemma(grows=OneOf(True, False), starts=OneOf(True, False), ends=OneOf(True, False), targets=[C + 'getDynamicWedgeString'])
def hairpins_written(grows, starts, ends):
    """'<' opens and '[' closes a crescendo, '>' and ']' a diminuendo"""
    got = M21Convert.getDynamicWedgeString(m21.dynamics.Crescendo() if grows else m21.dynamics.Diminuendo(), starts, ends)
    assert got == (('<' if grows else '>') if starts else '') + (('[' if grows else ']') if ends else '')


# ---------------------------------------------------------------- tempo

TYPES = {'breve': 8, 'whole': 4, 'half': 2, 'quarter': 1, 'eighth': Fraction(1, 2), '16th': Fraction(1, 4), '32nd': Fraction(1, 8), '64th': Fraction(1, 16),
         '128th': Fraction(1, 32), '256th': Fraction(1, 64)}
NAMES = {'0': 8, '1': 4, '2': 2, '4': 1, '8': Fraction(1, 2), '16': Fraction(1, 4), '32': Fraction(1, 8), 'sixteenth': Fraction(1, 4), '8th': Fraction(1, 2),
         'double-whole': 8, '1024': Fraction(1, 256), '512th': Fraction(1, 128)}


@P.lemma(kind_=OneOf(*TYPES), dots=OneOf(0, 1, 2, 3), targets=[C + 'getHumdrumTempoNoteNameFromM21Duration', C + 'durationFromHumdrumTempoNoteName'])
def tempo_notes(kind_, dots):
    """the note value of a tempo mark survives its name"""
    d = m21.duration.Duration(type=kind_, dots=dots)
    name = M21Convert.getHumdrumTempoNoteNameFromM21Duration(d)
    assert M21Convert.durationFromHumdrumTempoNoteName(name).quarterLength == d.quarterLength
    assert M21Convert.durationFromHumdrumTempoNoteName('[' + name + ']').quarterLength == d.quarterLength
    assert M21Convert.durationFromHumdrumTempoNoteName('[' + name + '|x@y]').quarterLength == d.quarterLength


@P.lemma(value=OneOf(*{**NAMES, **TYPES}), dots=OneOf(0, 1, 2, 3), dotted=OneOf('.', '-dot'), targets=[C + 'durationFromHumdrumTempoNoteName'])
def tempo_names(value, dots, dotted):
    """every name of a note value with its dots means that value"""
    d = M21Convert.durationFromHumdrumTempoNoteName(value + dotted * dots)
    assert d.quarterLength == {**NAMES, **TYPES}[value] * (2 - Fraction(1, 2 ** dots))


@P.lemma(n=Int(1), targets=[T + 'tempoBPM', T + 'isTempo'])
def metronome_number(n):
    """*MM with any number reads as that number"""
    t = HumdrumToken('*MM' + str(n))
    assert t.isTempo and t.tempoBPM == n


@P.lemma(number=OneOf(40, 60, 61.5, 100, 103, 120.4), kind_=OneOf(*list(TYPES)[1:6]), dots=OneOf(0, 1), text=OneOf(None, 'Allegro', 'a: b'),
         targets=[C + 'getMMTokenAndTempoTextFromM21TempoIndication'])
def metronome_written(number, kind_, dots, text):
    """a metronome mark is written as its speed in quarter notes, rounded to the nearest whole number, and its text"""
    mark = metronome(number, kind_, dots, text)
    mm, words = M21Convert.getMMTokenAndTempoTextFromM21TempoIndication(mark)
    speed = Fraction(number).limit_denominator(1000) * TYPES[kind_] * (2 - Fraction(1, 2 ** dots))
    assert mm[0:3] == '*MM' and abs(int(mm[3:]) - speed) <= Fraction(1, 2)
    assert words == ('' if text is None else text.replace(':', '&colon;'))


@native
def metronome(number, type_, dots, text):
    return m21.tempo.MetronomeMark(number=number, referent=m21.duration.Duration(type=type_, dots=dots), text=text)


# ---------------------------------------------------------------- whole files (bounded)

SEED = Int(0, 10 ** 6)


@P.bounded('random songs read from Humdrum text made from the definition of the format', seed=SEED, quick=200, thorough=5000,
           targets=[F + '_convertVerses', F + '_processDynamics', F + '_processHairpin'])
def song_read(seed):
    s = Song(seed, 1)
    assert differs(s, read_krn(s.kern()), 1) is None


@P.bounded('random songs of 1-2 parts as music21 scores, written as Humdrum and read again', seed=SEED, quick=150, thorough=4000,
           targets=[W + '_addEventDynamics', W + '_addTempo', W + '_addText'])
def song_written(seed):
    s = Song(seed)
    assert differs(s, read_krn(write_krn(s.score(), False))) is None


@P.bounded('the same songs written as MEI and read again', seed=SEED, quick=120, thorough=4000,
           targets=['converter21.mei.m21objectconvert:M21ObjectConvert.m21LyricsToMei', 'converter21.mei.meireader:MeiReader.addDirsDynamsTempos'])
def song_mei(seed):
    s = Song(seed)
    assert differs(s, read_mei(write_mei(s.score(), False))) is None
