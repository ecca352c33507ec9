"""Chord symbols <-> Harte, **mxhm and printable texts."""
from pyvc.api import *
import random
import music21 as m21
from converter21.shared.m21utilities import M21Utilities
from converter21.humdrum.m21convert import M21Convert

P = Prop('C14')
U = 'converter21.shared.m21utilities:M21Utilities.'
V = 'converter21.humdrum.m21convert:M21Convert.'
MUSIC21 = 'music21 is the real module, evaluated on every case of the finite domain'

LETTERS = 'CDEFGAB'
SEMIS = (0, 2, 4, 5, 7, 9, 11)


def degree_name(root, num, alter):
    """the note name of a degree of the major scale on root, altered (m21 spelling: '-' is flat)"""
    step = LETTERS.index(root[0])
    ra = root.count('#') - root.count('-')
    to = (step + num - 1) % 7
    alt = (SEMIS[step] + ra + SEMIS[(num - 1) % 7] + alter - SEMIS[to] + 6) % 12 - 6
    return LETTERS[to] + ('#' * alt if alt > 0 else '-' * -alt)


def deg(text):
    """a Harte degree: number, semitones"""
    return int(text.lstrip('#b')), text.count('#') - text.count('b')


# chord kinds in use, and the degrees (in Harte spelling) they consist of besides the root: written down independently
KINDS = {
    'major': '3 5', 'minor': 'b3 5', 'augmented': '3 #5', 'diminished': 'b3 b5',
    'dominant-seventh': '3 5 b7', 'major-seventh': '3 5 7', 'minor-major-seventh': 'b3 5 7', 'minor-seventh': 'b3 5 b7',
    'augmented-major-seventh': '3 #5 7', 'augmented-seventh': '3 #5 b7', 'half-diminished-seventh': 'b3 b5 b7',
    'diminished-seventh': 'b3 b5 bb7', 'seventh-flat-five': '3 b5 b7', 'major-sixth': '3 5 6', 'minor-sixth': 'b3 5 6',
    'major-ninth': '3 5 7 9', 'dominant-ninth': '3 5 b7 9', 'minor-major-ninth': 'b3 5 7 9', 'minor-ninth': 'b3 5 b7 9',
    'augmented-major-ninth': '3 #5 7 9', 'augmented-dominant-ninth': '3 #5 b7 9', 'half-diminished-ninth': 'b3 b5 b7 9',
    'half-diminished-minor-ninth': 'b3 b5 b7 b9', 'diminished-ninth': 'b3 b5 bb7 9', 'diminished-minor-ninth': 'b3 b5 bb7 b9',
    'dominant-11th': '3 5 b7 9 11', 'major-11th': '3 5 7 9 11', 'minor-major-11th': 'b3 5 7 9 11', 'minor-11th': 'b3 5 b7 9 11',
    'augmented-major-11th': '3 #5 7 9 11', 'augmented-11th': '3 #5 b7 9 11', 'half-diminished-11th': 'b3 b5 b7 9 11',
    'diminished-11th': 'b3 b5 bb7 9 11',
    'major-13th': '3 5 7 9 11 13', 'dominant-13th': '3 5 b7 9 11 13', 'minor-major-13th': 'b3 5 7 9 11 13',
    'minor-13th': 'b3 5 b7 9 11 13', 'augmented-major-13th': '3 #5 7 9 11 13', 'augmented-dominant-13th': '3 #5 b7 9 11 13',
    'half-diminished-13th': 'b3 b5 b7 9 11 13',
    'suspended-second': '2 5', 'suspended-fourth': '4 5', 'suspended-fourth-seventh': '4 5 b7',
    'Neapolitan': 'b2 3 b5', 'Italian': '#4 b6', 'French': '2 #4 b6', 'German': 'b3 #4 b6', 'pedal': '', 'power': '5',
    'Tristan': '#4 #6 #9',
}
# Harte's shorthands
SHORTHANDS = {'maj': '3 5', 'min': 'b3 5', 'dim': 'b3 b5', 'aug': '3 #5', 'maj7': '3 5 7', 'min7': 'b3 5 b7', '7': '3 5 b7',
              'dim7': 'b3 b5 bb7', 'hdim7': 'b3 b5 b7', 'minmaj7': 'b3 5 7', 'maj6': '3 5 6', 'min6': 'b3 5 6',
              '9': '3 5 b7 9', 'maj9': '3 5 7 9', 'min9': 'b3 5 b7 9', 'sus4': '4 5'}
ROOTS = tuple(s + a for s in 'CDEFGAB' for a in ('', '#', '-'))
MANY = ROOTS + ('C##', 'F##', 'B--', 'E--', 'D--', 'G##')


def notes_of(root, degrees):
    out = {root}
    for d in degrees:
        n, a = deg(d)
        out.add(degree_name(root, n, a))
    return out


@native
def symbol(root, kind, bass=None):
    return m21.harmony.ChordSymbol(root=root, kind=kind, bass=bass)


@native
def modified(root, kind, bass, mods):
    cs = m21.harmony.ChordSymbol(root=root, kind=kind, bass=bass)
    for ty, num, alter in mods:
        cs.addChordStepModification(m21.harmony.ChordStepModification(ty, num, alter), updatePitches=False)
    return cs


@native
def facts(cs):
    """root, bass and the notes sounding"""
    return (cs.root().name, cs.bass().name, {p.name for p in cs.pitches})


def harte_degrees(text):
    """the degrees a Harte text stands for, by number; and its bass: read independently of the code"""
    root, rest = text, ''
    bass = '1'
    if '/' in text:
        text, bass = text.split('/')
    root = text
    if ':' in text:
        root, rest = text.split(':')
    short, inner = rest, ''
    if '(' in rest:
        short, inner = rest[:-1].split('(')
    have = {}
    for d in (SHORTHANDS[short].split() if short else []):
        have[deg(d)[0]] = deg(d)[1]
    for d in (inner.split(',') if inner else []):
        if d[0] == '*':
            have.pop(deg(d[1:])[0])
        else:
            have[deg(d)[0]] = deg(d)[1]
    have.pop(1, None)
    return root, have, deg(bass)


# ---------------------------------------------------------------- Harte

HW = [U + 'makeHarteFromChordSymbol', U + 'simplifyChordSymbol', U + 'chordSymbolHasAlters', U + '_degreeInt']
HR = [U + 'makeChordSymbolFromHarte', U + 'simplifyChordSymbol', U + '_degreeInt']


@P.lemma(ck=OneOf(*KINDS), root=OneOf('C', 'F#', 'B-', 'E--', 'D'), note=MUSIC21, targets=HW + HR)
def harte_kinds(ck, root):
    """a chord of any kind, written as Harte and read back, keeps its root, its bass and its notes"""
    text = M21Utilities.makeHarteFromChordSymbol(symbol(root, ck))
    r, have, bass = harte_degrees(text)
    assert r == root.replace('-', 'b') and bass == (1, 0)
    want = {}
    for d in KINDS[ck].split():
        want[deg(d)[0]] = deg(d)[1]
    assert have == want
    back = M21Utilities.makeChordSymbolFromHarte(text)
    assert facts(back) == (root, root, notes_of(root, KINDS[ck].split()))


@P.lemma(root=OneOf(*MANY), bass=OneOf(*MANY), ck=OneOf('major'), note=MUSIC21, targets=HW + HR)
def harte_basses(root, bass, ck):
    """so does a chord over any bass"""
    text = M21Utilities.makeHarteFromChordSymbol(symbol(root, ck, bass))
    r, have, b = harte_degrees(text)
    assert r == root.replace('-', 'b') and degree_name(root, b[0], b[1]) == bass and 1 <= b[0] <= 7
    back = M21Utilities.makeChordSymbolFromHarte(text)
    assert facts(back) == (root, bass, notes_of(root, KINDS[ck].split()) | {bass})


EXTRA = ('', 'b2', '4', '6', '9', '#9', '11', 'b13', '9,13', 'b9,#11', '2,4', '4,6,b9')


@P.lemma(short=OneOf(*SHORTHANDS), extra=OneOf(*EXTRA), omit=OneOf(0, 1, 2), root=OneOf('Eb'), note=MUSIC21, targets=HW + HR)
def harte_read(short, extra, omit, root):
    """a Harte text with added and omitted degrees reads as the notes it names, and is written back as the same chord"""
    implied = SHORTHANDS[short].split()
    dropped = []
    if omit > 0:
        dropped.append(implied.pop(omit - 1))
    added = extra.split(',') if extra else []
    nums = {deg(d)[0] for d in implied + added}
    if len(nums) < len(implied) + len(added):
        return
    if not implied + added:
        return
    inner = ','.join(['*' + d for d in dropped] + added)
    text = root + ':' + short + ('(' + inner + ')' if inner else '')
    cs = M21Utilities.makeChordSymbolFromHarte(text)
    r = root.replace('b', '-')
    assert facts(cs) == (r, r, notes_of(r, implied + added))
    again = M21Utilities.makeChordSymbolFromHarte(M21Utilities.makeHarteFromChordSymbol(cs))
    assert facts(again) == facts(cs)


@P.lemma(bass=OneOf(*(a + n for n in '1234567' for a in ('', 'b', 'bb', '#', '##'))), root=OneOf('C', 'F#', 'Bb', 'Ab', 'B', 'E'),
         short=OneOf('maj', 'min7', ''), note=MUSIC21, targets=HR)
def harte_bass_read(bass, root, short):
    """a Harte bass degree, however altered, is that degree of the root"""
    text = root + ((':' + short) if short else '') + '/' + bass
    cs = M21Utilities.makeChordSymbolFromHarte(text)
    r = root.replace('b', '-')
    n, a = deg(bass)
    low = degree_name(r, n, a)
    assert cs.root().name == r and cs.bass().name == low


@P.lemma(digits=OneOf('1', '2', '9', '11', '13'), pre=OneOf('', '#', 'b', 'bb', '##', '*', '*b'), targets=[U + '_degreeInt'])
def degree_int(digits, pre):
    """the number of a degree, whatever precedes it"""
    assert M21Utilities._degreeInt(pre + digits) == int(digits)


@P.lemma(text=OneOf('N', '', 'H:maj', 'C:maj(', ':maj', 'C/x', 'N '), note=MUSIC21, targets=[U + 'makeChordSymbolFromHarte'])
def harte_none(text):
    """'N' is no chord; a text which is not Harte is none at all"""
    cs = M21Utilities.makeChordSymbolFromHarte(text)
    if text == 'N':
        assert isinstance(cs, m21.harmony.NoChord) and M21Utilities.makeHarteFromChordSymbol(cs) == 'N'
    else:
        assert cs is None


MODKINDS = ('major', 'minor', 'augmented', 'diminished', 'dominant-seventh', 'minor-seventh', 'augmented-seventh', 'augmented-major-seventh',
            'diminished-seventh', 'half-diminished-ninth', 'major-ninth', 'minor-11th', 'suspended-fourth', 'power', 'French')


def with_mods(kind, mods):
    """the degrees of a modified chord: number -> semitones"""
    have = {}
    for d in KINDS[kind].split():
        have[deg(d)[0]] = deg(d)[1]
    for ty, num, alter in mods:
        if ty == 'subtract':
            have.pop(num)
    for ty, num, alter in mods:
        if ty == 'alter':
            have[num] += alter
    for ty, num, alter in mods:
        if ty == 'add':
            have[num] = alter
    return have


def applicable(kind, mods):
    have = [deg(d)[0] for d in KINDS[kind].split()]
    used = set()
    for ty, num, alter in mods:
        if num in used or ((num in have) == (ty == 'add')):
            return False
        used.add(num)
    return True


MODS = (('add', 2, 0), ('add', 4, 1), ('add', 6, 0), ('add', 7, 0), ('add', 7, -1), ('add', 7, -2), ('add', 9, 0), ('add', 9, -1),
        ('add', 13, 0), ('subtract', 3, 0), ('subtract', 5, 0), ('alter', 3, -1), ('alter', 5, -1), ('alter', 5, 1), ('alter', 7, -1),
        ('alter', 9, 1))


@P.lemma(ck=OneOf(*MODKINDS), one=OneOf(*MODS), two=OneOf(None, *MODS[2:14:2]), note=MUSIC21, targets=HW)
def harte_modified(ck, one, two):
    """additions, omissions and alterations of a chord's degrees are all in the Harte text"""
    mods = [one] if two is None else [one, two]
    if not applicable(ck, mods):
        return
    text = M21Utilities.makeHarteFromChordSymbol(modified('D', ck, None, mods))
    root, have, bass = harte_degrees(text)
    assert root == 'D' and bass == (1, 0) and have == with_mods(ck, mods)


OTHERS = (('add', 7, 1), ('add', 9, 1), ('add', 6, -1), ('add', 11, 0), ('add', 4, 0), ('add', 2, -1), ('alter', 3, 1), ('alter', 9, -1), ('add', 13, -1),
          ('add', 11, 1), ('subtract', 7, 0))


@P.lemma(ck=OneOf(*MODKINDS), one=OneOf(*MODS, *OTHERS), note=MUSIC21, targets=[U + 'simplifyChordSymbol'])
def simplify_keeps(ck, one):
    """simplifying a chord symbol changes how it is described, never which degrees it has"""
    if not applicable(ck, [one]):
        return
    cs = modified('C', ck, None, [one])
    M21Utilities.simplifyChordSymbol(cs)
    mods = [(m.modType, m.degree, m.interval.semitones) for m in cs.chordStepModifications]
    assert mods == [] or mods == [one]
    assert with_mods(cs.chordKind, mods) == with_mods(ck, [one])


# ---------------------------------------------------------------- **mxhm

@P.lemma(ck=OneOf(*KINDS), root=OneOf('C', 'F#', 'B-', 'E--', 'A'), bass=OneOf(None, 'C', 'E-', 'G#', 'B'), note=MUSIC21,
         targets=[V + 'm21ChordSymToHarmonyText', V + 'getM21ChordSymFromHarmonyText', U + 'convertChordSymbolFigureToPrintableText',
                  U + 'simplifyChordSymbol'])
def mxhm(ck, root, bass):
    """a chord of any kind over any bass survives **mxhm, and the text names root and bass"""
    cs = symbol(root, ck, bass)
    text = M21Convert.m21ChordSymToHarmonyText(cs)
    low = root if bass is None else bass
    assert text.startswith(root + ' ')
    assert ('/' in text) == (low != root)
    if low != root:
        assert text.endswith('/' + low)
    back = M21Convert.getM21ChordSymFromHarmonyText(text)
    assert facts(back) == (root, low, notes_of(root, KINDS[ck].split()) | {low})


MXML = {'dominant': 'dominant-seventh', 'half-diminished': 'half-diminished-seventh', 'major-minor': 'minor-major-seventh',
        'augmented-ninth': 'augmented-dominant-ninth'}


@P.lemma(ck=OneOf('dominant', 'half-diminished', 'major', 'minor-seventh', 'suspended-fourth'), root=OneOf('C', 'F#', 'B-'), bass=OneOf('', '/E', '/B-'),
         note=MUSIC21, targets=[V + 'getM21ChordSymFromHarmonyText'])
def mxhm_aliases(ck, root, bass):
    """MusicXML's names of chord kinds are understood"""
    cs = M21Convert.getM21ChordSymFromHarmonyText(root + ' ' + ck + bass)
    name = MXML[ck] if ck in MXML else ck
    low = bass[1:] if bass else root
    assert cs.chordKind == name
    assert facts(cs) == (root, low, notes_of(root, KINDS[name].split()) | {low})


@P.lemma(text=OneOf('none', 'C nosuchkind', 'C major/D/E', 'C'), note=MUSIC21, targets=[V + 'getM21ChordSymFromHarmonyText'])
def mxhm_odd(text):
    """'none' is no chord; what is not a chord is skipped"""
    cs = M21Convert.getM21ChordSymFromHarmonyText(text)
    if text == 'none':
        assert isinstance(cs, m21.harmony.NoChord)
    else:
        assert cs is None


# ---------------------------------------------------------------- printable text

@native
def parse_figure(figure):
    return m21.harmony.ChordSymbol(figure.replace('maj6', '6').replace('\u00b0', 'dim') if '\u00b0' in figure or 'maj6' in figure else figure)


FLAT = '\ue260'
SHARP = '\ue262'


@P.lemma(ck=OneOf(*KINDS), root=OneOf('C', 'F#', 'B-', 'E--', 'A', 'B'), bass=OneOf(None, 'C', 'E-', 'G#', 'B'), note=MUSIC21,
         targets=[U + 'convertChordSymbolToText', U + 'convertChordSymbolFigureToPrintableText', U + 'convertPrintableTextToChordSymbolFigure'])
def printable(ck, root, bass):
    """the printable text of a chord symbol, turned back into a music21 figure, is the same chord"""
    if ck == 'diminished-minor-ninth':
        return
    text = M21Utilities.convertChordSymbolToText(symbol(root, ck, bass))
    assert '-' not in text and '#' not in text
    low = root if bass is None else bass
    back = parse_figure(M21Utilities.convertPrintableTextToChordSymbolFigure(text))
    assert facts(back) == (root, low, notes_of(root, KINDS[ck].split()) | {low})


@native
def texted(what, root, bass, kindstr):
    if what == 'none':
        return m21.harmony.NoChord(kindstr) if kindstr else m21.harmony.NoChord()
    cs = m21.harmony.ChordSymbol(root=root, kind='minor', kindStr=kindstr, bass=bass)
    if what == 'full':
        cs.c21_full_text = 'Any Text'
    return cs


@P.lemma(what=OneOf('none', 'full', 'plain'), root=OneOf('C', 'B-', 'F#'), bass=OneOf('C', 'E-', 'G#'), kindstr=OneOf('mi', '-', 'N.C.'), note=MUSIC21,
         targets=[U + 'convertChordSymbolToText'])
def own_text(what, root, bass, kindstr):
    """a chord symbol with a text of its own keeps it"""
    text = M21Utilities.convertChordSymbolToText(texted(what, root, bass, kindstr))
    if what == 'none':
        assert text == kindstr
    elif what == 'full':
        assert text == 'Any Text'
    else:
        name = root.replace('-', '\u266d').replace('#', '\u266f')
        low = bass.replace('-', '\u266d').replace('#', '\u266f')
        assert text == name + kindstr + ('' if bass == root else '/' + low)


@P.lemma(root=OneOf('C', 'B-', 'F#', 'E--'), body=OneOf('', 'm', '7', 'maj7'), extra=OneOf('', ' add b9', ' add #11', ' subtract 5', ' alter b5'),
         bass=OneOf('', '/E-', '/G#', '/B'),
         targets=[U + 'convertChordSymbolFigureToPrintableText', U + 'convertPrintableTextToChordSymbolFigure'])
def figure_text(root, body, extra, bass):
    """figures become texts with real accidentals and no spaces, and come back as the same figures"""
    text = M21Utilities.convertChordSymbolFigureToPrintableText(root + body + extra + bass)
    want = root + body + extra.replace('subtract', 'omit').replace(' ', '') + bass
    assert text == want.replace('-', 'b').replace('b', FLAT).replace('#', SHARP)
    back = M21Utilities.convertPrintableTextToChordSymbolFigure(text)
    assert back == root + body + extra.replace('subtract', 'omit') + bass
    alone = M21Utilities.convertChordSymbolFigureToPrintableText(root + body + extra + bass, removeNoteNames=True)
    assert alone == (body + extra.replace('subtract', 'omit').replace(' ', '')).replace('b', FLAT).replace('#', SHARP)


@native
def harte_sample(seed):
    rng = random.Random(seed)
    short = rng.choice(list(SHORTHANDS))
    implied = SHORTHANDS[short].split()
    dropped = [implied.pop(rng.randrange(len(implied)))] if rng.random() < .4 else []
    added = rng.sample(['2', 'b2', 'b3', '3', '4', '#4', 'b5', '5', '#5', '6', 'b6', 'b7', '7', 'bb7', '9', 'b9', '#9', '11', '#11', '13', 'b13'],
                       rng.randint(0, 3))
    nums = {deg(d)[0] for d in implied + added}
    if len(nums) < len(implied) + len(added):
        return
    root = rng.choice(ROOTS)
    bass = rng.choice(['', '', '3', 'b3', '5', 'b7', 'bb7', '2', '#4', 'b2'])
    inner = ','.join(['*' + d for d in dropped] + added)
    text = root.replace('-', 'b') + ':' + short + ('(' + inner + ')' if inner else '') + ('/' + bass if bass else '')
    cs = M21Utilities.makeChordSymbolFromHarte(text)
    low = degree_name(root, *deg(bass)) if bass else root
    want = (root, low, notes_of(root, implied + added) | {low})
    assert facts(cs) == want, text
    assert facts(M21Utilities.makeChordSymbolFromHarte(M21Utilities.makeHarteFromChordSymbol(cs))) == want, text


@P.bounded('Harte texts with up to three added degrees, an omission and a bass', seed=Int(0, 10 ** 6), quick=500, thorough=6000,
           targets=HW + HR)
def harte_random(seed):
    """any Harte text reads as the notes it names and survives being written and read again"""
    harte_sample(seed)
