"""The marks on notes: articulations, fermatas, ornaments, ties, beams, stems, tremolos, grace notes."""
from pyvc.api import *
from fractions import Fraction
import random
import music21 as m21
from converter21.humdrum.m21convert import M21Convert
from converter21.humdrum.humdrumfile import HumdrumFile
from converter21.humdrum.humdrumtoken import HumdrumToken
from specs._common import Rec
from specs.rhythm import cache
from specs._e2e import read_krn, write_krn, quiet

P = Prop('C15')
V = 'converter21.humdrum.m21convert:M21Convert.'
F = 'converter21.humdrum.humdrumfile:HumdrumFile.'
MUSIC21 = 'music21 is the real module, evaluated on every case of the finite domain'

ART = {"'": 'Staccato', '`': 'Staccatissimo', '~': 'Tenuto', '^^': 'StrongAccent', '^': 'Accent', ',': 'BreathMark', 'o': 'Harmonic',
       'v': 'UpBow', 'u': 'DownBow', '"': 'Pizzicato'}
SIDE = {'': None, '>': 'above', '<': 'below'}


@native
def make_artic(name, side):
    a = getattr(m21.articulations, name)()
    a.placement = side
    return a


@native
def reader():
    with quiet():
        hf = HumdrumFile()
    hf._signifiers.above = '>'
    hf._signifiers.below = '<'
    return hf


def default_side(name):
    """where music21 puts it when not told"""
    return make_default(name)


@native
def make_default(name):
    return getattr(m21.articulations, name)().placement


@P.lemma(one=OneOf(*ART), two=OneOf('', *ART), side1=OneOf(*SIDE), side2=OneOf(*SIDE), note=MUSIC21,
         targets=[V + 'm21Articulations', V + '_getHumdrumStringFromM21Articulations'])
def articulations(one, two, side1, side2):
    """articulations with their placements survive being written and read, and nothing else on the note is taken for one"""
    if one == two or (two == '' and side2 != '') or (one + side1 == '^' and two == '^^'):     # ^^^ has two readings
        return
    given = [(one, side1)] if two == '' else [(one, side1), (two, side2)]
    objs = [make_artic(ART[a], SIDE[s]) for a, s in given]
    text = M21Convert._getHumdrumStringFromM21Articulations(objs)
    assert text == ''.join([a + s for a, s in given])
    for around in (('4c', ''), ('(8.bb-', '/LL)'), ('[2E#', 'T;<')):
        got = M21Convert.m21Articulations(around[0] + text + around[1], '>', '<')
        assert len(got) == len(given)
        for a, s in given:
            want = SIDE[s] if s else default_side(ART[a])
            assert (ART[a], want) in [(g.classes[0], g.placement) for g in got]


@P.lemma(a=OneOf(*ART), side=OneOf('', '>', '<'), rest=OneOf('', 'L', '/'), note=MUSIC21, targets=[V + 'm21Articulations'])
def hidden_articulations(a, side, rest):
    """an articulation marked y is hidden; one on a note marked yy is not"""
    assert M21Convert.m21Articulations('4d' + a + side + 'y' + rest, '>', '<') == []
    got = M21Convert.m21Articulations('4d' + a + side + 'yy', '>', '<')
    assert [g.classes[0] for g in got] == [ART[a]]
    plain = M21Convert.m21Articulations('4d' + a + side, '', '')
    assert [(g.classes[0], g.placement) for g in plain] == [(ART[a], default_side(ART[a]))]


# ---------------------------------------------------------------- fermatas

@native
def fermata(kind):
    f = m21.expressions.Fermata()
    f.type = kind
    return f


@native
def quarter(name='C4'):
    return m21.note.Unpitched() if name == 'unpitched' else m21.chord.Chord(name) if ' ' in name else m21.note.Note(name)


@P.lemma(kinds=OneOf(('upright',), ('inverted',), ('upright', 'inverted')), note=MUSIC21,
         targets=[V + '_getHumdrumStringAndLayoutsFromM21Expressions', F + '_addFermata', F + '_getDirection'])
def fermatas(kinds):
    """fermatas above and below a note stay above and below"""
    n = quarter()
    text, layouts = M21Convert._getHumdrumStringAndLayoutsFromM21Expressions([fermata(k) for k in kinds], n, '4')
    assert text.count(';') == len(kinds) and layouts == []
    back = Rec(expressions=[])
    reader()._addFermata(back, HumdrumToken('4c' + text))
    assert tuple([e.type for e in back.expressions]) == kinds


@P.lemma(text=OneOf(';', ';>', ';<', ';;', '', ';yy'), where=OneOf('4c', '4r'), note=MUSIC21, targets=[F + '_addFermata', F + '_getDirection'])
def fermata_read(text, where):
    """; is a fermata above, ;< one below, ;; both; a hidden note shows none"""
    obj = Rec(expressions=[])
    reader()._addFermata(obj, HumdrumToken(where + text))
    want = {';': ['upright'], ';>': ['upright'], ';<': ['inverted'], ';;': ['upright', 'inverted'], '': [], ';yy': []}[text]
    assert [e.type for e in obj.expressions] == want


class BarRec(m21.bar.Barline):
    """a barline of which only the fermata is looked at"""
    def __init__(self):
        self.pause = None


@P.lemma(text=OneOf(';', ';>', ';<', ';;', '', ';yy'), targets=[F + '_addFermata'])
def fermata_of_barline(text):
    """a barline takes the first fermata"""
    b = BarRec()
    reader()._addFermata(b, HumdrumToken('=2' + text))
    want = {';': 'upright', ';>': 'upright', ';<': 'inverted', ';;': 'upright', '': None, ';yy': None}[text]
    assert (b.pause is None) if want is None else (b.pause.type == want)


# ---------------------------------------------------------------- ornaments

@native
def ornament(cls, note, upper, lower, delayed):
    """an ornament with its pitches, none of whose accidentals shows"""
    o = getattr(m21.expressions, cls)() if 'Turn' not in cls else getattr(m21.expressions, cls)(
        delay=m21.common.enums.OrnamentDelay.DEFAULT_DELAY if delayed else m21.common.enums.OrnamentDelay.NO_DELAY)
    if not note.pitches:
        return o
    up, lo = note.pitches[-1].transpose(upper), note.pitches[-1].transpose('-' + lower)
    for p in (up, lo):
        if p.accidental is not None:
            p.accidental.displayStatus = False
    o._ornamentalPitches = (up, lo) if 'Turn' in cls else (up,) if cls in ('Trill', 'InvertedMordent') else (lo,)
    return o


@P.lemma(cls=OneOf('Trill', 'InvertedTrill', 'InvertedMordent', 'Mordent', 'Turn', 'InvertedTurn'), pitch=OneOf('C4', 'F#5', 'B-3', 'E4', 'C3 G4', 'unpitched'),
         upper=OneOf('m2', 'M2'), lower=OneOf('m2', 'M2'), delayed=OneOf(False, True), note=MUSIC21,
         targets=[V + '_getHumdrumStringAndLayoutsFromM21TrillMordentTurn', V + '_getHumdrumStringAndLayoutsFromM21Expressions'])
def ornaments_written(cls, pitch, upper, lower, delayed):
    """trills, mordents and turns are written with the size of their intervals, turns with their delay"""
    n = quarter(pitch)
    if pitch == 'unpitched' and 'Turn' in cls:
        return
    o = ornament(cls, n, upper, lower, delayed)
    text, layouts = M21Convert._getHumdrumStringAndLayoutsFromM21Expressions([o], n, '4')
    u, w = upper == 'm2', lower == 'm2'
    if pitch == 'unpitched':
        want = 't' if 'Trill' in cls else 'm'
    elif cls == 'Trill':
        want = 't' if u else 'T'
    elif cls == 'InvertedTrill':
        want = 't<' if w else 'T<'
    elif cls == 'InvertedMordent':
        want = 'm' if u else 'M'
    elif cls == 'Mordent':
        want = 'w' if w else 'W'
    else:
        want = ('' if delayed else 's') + ('$' if cls == 'InvertedTurn' else 'S') + ('s' if u else 'S') + ('s' if w else 'S')
    assert text == want and layouts == []


@native
def wavy(upper):
    a, b = m21.note.Note('D4'), m21.note.Note('D4')
    t = ornament('Trill', a, upper, 'm2', False)
    x = m21.expressions.TrillExtension(a, b)
    return a, b, t, x


@P.lemma(upper=OneOf('m2', 'M2'), later=OneOf(False, True), note=MUSIC21, targets=[V + '_getHumdrumStringAndLayoutsFromM21Expressions'])
def trill_with_line(upper, later):
    """a trill with a wavy line starts with two letters and goes on with three"""
    a, b, t, x = wavy(upper)
    f = fermata('upright')
    first = M21Convert._getHumdrumStringAndLayoutsFromM21Expressions([f, t, x] if later else [x, t], a, '4')
    assert first == ((';' if later else '') + ('tt' if upper == 'm2' else 'TT'), [])
    text, layouts = M21Convert._getHumdrumStringAndLayoutsFromM21Expressions([x], b, '4')
    assert text in ('TTT', 'ttt') and layouts == []


# ---------------------------------------------------------------- ties, stems, beams

@native
def tied(kind, style, side, direction):
    n = m21.note.Note('C4')
    if kind:
        n.tie = m21.tie.Tie(kind)
        n.tie.style = style
        n.tie.placement = side
    if direction:
        n.stemDirection = direction
    return n


@P.lemma(kind2=OneOf('', 'start', 'continue', 'stop'), style=OneOf('normal', 'dotted', 'dashed', 'hidden'), side=OneOf(None, 'above', 'below'), note=MUSIC21,
         targets=[V + '_getTieStartStopAndLayoutsFromM21GeneralNote'])
def ties_written(kind2, style, side):
    """a tie is opened before the note and continued or closed after it, with its placement and style"""
    before, after, layouts = M21Convert._getTieStartStopAndLayoutsFromM21GeneralNote(tied(kind2, style, side, ''))
    mark = {None: '', 'above': '>', 'below': '<'}[side]
    tail = 'y' if style == 'hidden' else mark
    assert before == ('[' + tail if kind2 == 'start' else '')
    assert after == {'': '', 'start': '', 'continue': '_' + tail, 'stop': ']'}[kind2]
    shown = {'dotted': ['!LO:T:dot'], 'dashed': ['!LO:T:dash']}.get(style, [])
    assert layouts == (shown if kind2 in ('start', 'continue') else [])


@P.lemma(direction=OneOf('', 'up', 'down', 'noStem', 'double'), note=MUSIC21, targets=[V + '_getHumdrumStemDirStringFromM21GeneralNote'])
def stems_written(direction):
    """stems up and down"""
    assert M21Convert._getHumdrumStemDirStringFromM21GeneralNote(tied('', '', None, direction)) == {'up': '/', 'down': '\\'}.get(direction, '')
    assert M21Convert._getHumdrumStemDirStringFromM21GeneralNote(m21.note.Rest()) == ''


BEAM = ('start', 'stop', 'continue', 'left', 'right')


@native
def beams(levels):
    b = m21.beam.Beams()
    for x in levels:
        if x in ('left', 'right'):
            b.append('partial', x)
        else:
            b.append(x)
    return b


@P.lemma(a=OneOf('', *BEAM), b=OneOf('', *BEAM), c=OneOf('', *BEAM), d=OneOf('', 'start', 'stop', 'right'), note=MUSIC21,
         targets=[V + '_getHumdrumBeamStringFromM21Beams'])
def beams_written(a, b, c, d):
    """every beam that starts or ends and every hook is written once"""
    levels = [x for x in (a, b, c, d) if x]
    text = M21Convert._getHumdrumBeamStringFromM21Beams(beams(levels))
    for ch, x in (('L', 'start'), ('J', 'stop'), ('k', 'left'), ('K', 'right')):
        assert text.count(ch) == levels.count(x)
    assert len(text) == len(levels) - levels.count('continue')


# ---------------------------------------------------------------- grace notes and tremolos

@P.lemma(grace=OneOf('', 'plain', 'slash', 'noslash', 'appogg', 'prev', 'foll'), note=MUSIC21, targets=[V + 'kernGraceTypeFromM21Duration'])
def grace_types(grace):
    """q is an unaccented (slashed) grace note, qq an accented one"""
    d = m21.duration.Duration('eighth')
    if grace:
        d = d.getGraceDuration(appoggiatura=(grace == 'appogg'))
    if grace in ('slash', 'noslash', 'foll'):
        d.stealTimePrevious = None
        d.slash = grace == 'slash'
        d.stealTimeFollowing = 0.5 if grace == 'foll' else None
    if grace == 'prev':
        d.stealTimePrevious = 0.5
    want = {'': '', 'plain': 'q', 'slash': 'q', 'prev': 'q', 'noslash': 'qq', 'appogg': 'qq', 'foll': 'qq'}[grace]
    assert M21Convert.kernGraceTypeFromM21Duration(d) == want


@native
def tremolo(marks, spanner):
    if spanner:
        t = m21.expressions.TremoloSpanner()
        t.numberOfMarks = marks
        return t
    t = m21.expressions.Tremolo()
    t.numberOfMarks = marks
    return t


RECIPS = {'1': 4, '2': 2, '2.': 3, '4': 1, '4.': Fraction(3, 2), '8': Fraction(1, 2), '16': Fraction(1, 4), '8.': Fraction(3, 4)}


def undotted(tok, scale, recip, marks):
    return Fraction(scale) / int(recip.replace('.', ''))


@P.lemma(recip=OneOf(*RECIPS), marks=OneOf(1, 2, 3, 4), note=MUSIC21, statics=cache(undotted), targets=[V + '_getHumdrumStringFromTremolo'])
def tremolos_written(recip, marks):
    """a tremolo on a note: its marks, with the flags the note has already, are the flags of the repeated note"""
    d = m21.duration.Duration(RECIPS[recip])
    text = M21Convert._getHumdrumStringFromTremolo(tremolo(marks, False), d, recip, None)
    flags = {'8': 1, '8.': 1, '16': 2}.get(recip, 0)
    assert text == '@' + str(4 * 2 ** (marks + flags)) + '@'


# ---------------------------------------------------------------- whole files

HEAD = '!!!RDF**kern: > = above\n!!!RDF**kern: < = below\n**kern\n*clefG2\n*M4/4\n=1\n'


def rewritten(toks):
    """the data lines after reading and writing"""
    out = write_krn(read_krn(HEAD + '\n'.join(toks) + '\n==\n*-\n'), False)
    lines = [x for x in out.split('\n') if x and x[0] not in '!*']
    return lines[1:-1]


def same_marks(text):
    """a data token up to the order of its marks and notes"""
    if text[0] == '=':
        return text
    bare = text.replace('(', '').replace(')', '')
    return sorted([''.join(sorted(n)) for n in bare.split(' ')]), text.count('('), text.count(')')


@native
def tied_and_slurred(seed):
    rng = random.Random(seed)
    toks, slur = [], 0
    pits = ['c', 'd', 'e', 'f', 'g', 'a', 'b', 'cc', 'BB']
    cur, tiedin = [rng.choice(pits)], [False]
    n = 12
    for i in range(n):
        last = i == n - 1
        rest = rng.random() < .1 and not any(tiedin) and not last
        opens = closes = 0
        if not rest:
            if last:
                closes = slur
            else:
                closes = 1 if slur and rng.random() < .4 else 0
                opens = 1 if slur - closes < 2 and rng.random() < .35 else 0
            slur += opens - closes
        nxt = rng.sample(pits, rng.choice([1, 1, 1, 2, 3]))
        ntied = [False] * len(nxt)
        out = [False] * len(cur)
        if not last and not rest:
            for k, p in enumerate(cur):
                if rng.random() < .3:
                    out[k] = True
                    if p not in nxt:
                        nxt.append(p)
                        ntied.append(True)
                    ntied[nxt.index(p)] = True
        if rest:
            toks.append('4r')
        else:
            subs = [['[' if out[k] and not tiedin[k] else '', '4' + p, '_' if out[k] and tiedin[k] else ']' if tiedin[k] else '']
                    for k, p in enumerate(cur)]
            subs[0][0] = '(' * opens + subs[0][0]
            subs[-1][2] += ')' * closes
            if rng.random() < .12:
                toks.append(rng.choice(['8qqd', '16qe', '8qqf 8qqa']))
            toks.append(' '.join([''.join(x) for x in subs]))
        cur, tiedin = nxt, ntied
        if i % 4 == 3 and not last:
            toks.append('=%d' % (i // 4 + 2))
    got = rewritten(toks)
    assert [same_marks(x) for x in got] == [same_marks(x) for x in toks], (toks, got)


@P.bounded('three measures of quarter notes and chords with ties, up to two slurs at a time, rests and grace notes', seed=Int(0, 10 ** 6), quick=60, thorough=1500,
           targets=[V + '_getTieStartStopAndLayoutsFromM21GeneralNote', V + '_getKernSlurStartsAndStopsFromGeneralNote', F + '_processSlurs'])
def ties_and_slurs(seed):
    """every tie and slur starts and ends on the note where it did"""
    tied_and_slurred(seed)


@native
def marked(seed):
    rng = random.Random(seed)
    toks = []
    for i in range(4):
        m = ''.join([a + rng.choice(['', '', '>', '<']) for a in rng.sample(list(ART), rng.choice([0, 0, 1, 1, 2]))])
        m += rng.choice(['', '', '', ';', ';<', ';;', 'T', 'w', 'M', 't', 'm', 'W', 'sSss', '$Ss', 'sS$' if False else 'SSS'])
        m += rng.choice(['', '/', '\\'])
        toks.append('4' + rng.choice(['c', 'e', 'g', 'a', 'dd']) + m)
    got = rewritten(toks)

    def norm(t):
        return ''.join(sorted(t.replace(';;<', ';;').replace('X', '').replace('n', '')))
    assert [norm(x) for x in got] == [norm(x) for x in toks], (toks, got)


@P.bounded('four quarter notes with up to two articulations, an ornament or fermata and a stem each', seed=Int(0, 10 ** 6), quick=80, thorough=1500,
           targets=[F + '_addOrnaments', F + '_addArticulations', V + 'kernPrefixPostfixAndLayoutsFromM21GeneralNote'])
def marks_survive(seed):
    """reading and writing keeps the marks of every note on that note"""
    marked(seed)


@native
def beamed(seed):
    rng = random.Random(seed)
    flags = {'8': 1, '16': 2, '32': 3, '8.': 1, '16.': 2}
    durs = {'8': Fraction(1, 2), '16': Fraction(1, 4), '32': Fraction(1, 8), '8.': Fraction(3, 4), '16.': Fraction(3, 8)}
    toks, left = [], Fraction(4)
    while True:
        g = []
        for _ in range(rng.randint(2, 5)):
            d = rng.choice(list(durs))
            if sum(durs[x] for x in g) + durs[d] <= left:
                g.append(d)
        if len(g) < 2:
            break
        left -= sum(durs[x] for x in g)
        fl = [flags[x] for x in g]
        for i, d in enumerate(g):
            t = {'J': 0, 'k': 0, 'K': 0, 'L': 0}
            for lev in range(1, fl[i] + 1):
                before = i > 0 and fl[i - 1] >= lev
                after = i < len(g) - 1 and fl[i + 1] >= lev
                if before and after:
                    continue
                t['J' if before else 'L' if after else 'k' if i == len(g) - 1 else 'K'] += 1
            toks.append(d + rng.choice('cdefg') + ''.join(k * v for k, v in t.items()))
    got = rewritten(toks)[:len(toks)]
    assert got == toks, (toks, got)


@P.bounded('a measure of beamed groups of two to five notes, eighths to 32nds with and without dots', seed=Int(0, 10 ** 6), quick=60, thorough=1500,
           targets=[V + '_getHumdrumBeamStringFromM21Beams'])
def beams_survive(seed):
    """reading and writing keeps every beam with its levels and hooks"""
    beamed(seed)
