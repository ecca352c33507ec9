"""Small scores, lines and brackets, and what is wrong with the ids of an MEI file, for C20."""
import collections
import random
import re
import xml.etree.ElementTree as ET
import music21 as m21
from pyvc.api import native
from converter21.shared.m21utilities import M21BeamSpanner, M21TupletSpanner, M21TieSpanner
from specs._e2e import read_krn, read_mei
from specs._song import Song
from specs._music import Music

ID = '{http://www.w3.org/XML/1998/namespace}id'
REFS = ('startid', 'endid', 'plist', 'corresp', 'sameas', 'copyof', 'next', 'prev', 'facs', 'decls', 'resp', 'source', 'data')
KINDS = ('note', 'chord', 'rest', 'clef', 'meter', 'key', 'dynamic', 'text', 'slur')
SPANNERS = ('slur', 'crescendo', 'diminuendo', 'arpeggio', 'ottava', 'beam', 'tuplet', 'tie')


@native
def valid_id(x):
    return re.fullmatch(r'[A-Za-z_][\w.-]*', x) is not None


@native
def thing(what):
    return {'note': lambda: m21.note.Note('C4'), 'chord': lambda: m21.chord.Chord(['C4', 'E4']), 'rest': m21.note.Rest, 'clef': m21.clef.BassClef,
            'meter': lambda: m21.meter.TimeSignature('3/4'), 'key': lambda: m21.key.KeySignature(2), 'dynamic': lambda: m21.dynamics.Dynamic('p'),
            'text': lambda: m21.expressions.TextExpression('x'), 'slur': m21.spanner.Slur}[what]()


@native
def set_id(x, given):
    x.id = given


@native
def small_score(parts, bars, voices, names, chords):
    s = m21.stream.Score()
    for p in range(parts):
        part = m21.stream.Part()
        for b in range(bars):
            m = m21.stream.Measure(number=b + 1)
            if b == 0:
                m.append([m21.clef.TrebleClef(), m21.meter.TimeSignature('2/4')])
            for v in range(max(1, voices)):
                at = m
                if voices:
                    at = m21.stream.Voice()
                    if names != 'none':
                        at.id = str(v + 1) if names == 'texts' else v + 1
                    m.insert(0, at)
                for _ in range(2):
                    at.append(m21.chord.Chord(['C4', 'E4'], type='quarter') if chords else m21.note.Note('C4', type='quarter'))
            part.append(m)
        s.insert(0, part)
    return s


@native
def everything(s):
    out = []
    for x in s.recurse():
        out.append(x)
        if isinstance(x, m21.chord.ChordBase):
            out += list(x.notes)
    return out


@native
def spanned(what, count, chords):
    s, p, m = m21.stream.Score(), m21.stream.Part(), m21.stream.Measure(number=1)
    m.append([m21.clef.TrebleClef(), m21.meter.TimeSignature('4/4')])
    notes = [m21.chord.Chord(['C4', 'E4'], type='quarter') if chords and i % 2 == 0 else m21.note.Note('D4', type='quarter') for i in range(count)]
    for n in notes:
        m.append(n)
    m.append(m21.note.Note('G4', quarterLength=5 - count))
    p.append(m)
    s.insert(0, p)
    x = {'slur': m21.spanner.Slur, 'crescendo': m21.dynamics.Crescendo, 'diminuendo': m21.dynamics.Diminuendo, 'ottava': m21.spanner.Ottava,
         'arpeggio': m21.expressions.ArpeggioMarkSpanner, 'beam': M21BeamSpanner, 'tuplet': lambda: M21TupletSpanner(m21.duration.Tuplet(3, 2)),
         'tie': lambda: M21TieSpanner(m21.tie.Tie('start'), None)}[what]()
    x.addSpannedElements(notes)
    p.insert(0, x)
    return s, notes, x


@native
def first_bar(s):
    return s.parts[0].getElementsByClass(m21.stream.Measure)[0]


@native
def meters(s):
    out = m21.stream.Stream()
    out.insert(0, m21.meter.TimeSignature('4/4'))
    return out


@native
def problems(text):
    """ids that are not unique or not valid, references to nothing"""
    root = ET.fromstring(text)
    out = []
    ids = collections.Counter(e.get(ID) for e in root.iter() if e.get(ID) is not None)
    for k, v in ids.items():
        if v > 1:
            out.append(('several', k, v))
        if not valid_id(k):
            out.append(('not an id', k))
    for e in root.iter():
        for a in REFS:
            for w in (e.get(a) or '').split():
                if not w.startswith('#') or w[1:] not in ids:
                    out.append(('no such element', e.tag.split('}')[1], a, w))
    return out


@native
def add_lines(s, r):
    for part in s.parts:
        ns = [n for n in part.recurse().notes if not n.duration.isGrace]
        for _ in range(r.randrange(3)):
            if len(ns) < 2:
                break
            a = r.randrange(len(ns) - 1)
            b = r.randrange(a + 1, len(ns))
            part.insert(0, r.choice([m21.spanner.Slur, m21.dynamics.Crescendo, m21.spanner.Ottava])(ns[a], ns[b]))
        for n in ns:
            if r.random() < .2:
                n.expressions.append(r.choice([m21.expressions.Fermata, m21.expressions.Trill, m21.expressions.Mordent, m21.expressions.ArpeggioMark, m21.expressions.Turn])())
            if r.random() < .2:
                n.articulations.append(r.choice([m21.articulations.Staccato, m21.articulations.Accent])())
    return s


@native
def some_score(seed):
    r = random.Random(seed)
    which = r.randrange(6)
    if which == 0:
        return Song(seed).score()
    if which == 1:
        return read_krn(Song(seed, 1).kern())
    if which == 2:
        return read_krn(Music(seed).kern())
    if which == 3:
        return read_mei(Music(seed).mei())
    return add_lines(Music(seed).score(), r)


def top(a):
    n = 0
    while a >= 26:
        a //= 26
        n += 1
    return n


@native
def two_numbers(seed):
    r = random.Random(seed)
    a = r.choice([r.randrange(10 ** 9), r.randrange(2 ** 48), r.randrange(10 ** 3)])
    b = a
    while b == a:
        b = r.choice([a + 1, a * 26, a // 26, a + 26 ** r.randrange(6), a + 26 ** top(a), r.randrange(2 ** 48)])
    return a, b


@native
def clef_changes(seed):
    r = random.Random(seed)
    s, p = m21.stream.Score(), m21.stream.Part()
    want = []
    now = m21.clef.TrebleClef
    for b in range(r.choice([1, 2])):
        m = m21.stream.Measure(number=b + 1)
        if b == 0:
            m.insert(0, m21.clef.TrebleClef())
            want.append((0.0, 'TrebleClef'))
            m.insert(0, m21.meter.TimeSignature('4/4'))
        for v in range(r.choice([2, 3])):
            x = m21.stream.Voice(id=str(v + 1))
            for _ in range(4):
                x.append(m21.note.Note('C4', type='quarter'))
            m.insert(0, x)
        for at in r.sample([1, 2, 3], r.choice([1, 2])):
            c = r.choice([m21.clef.BassClef, m21.clef.AltoClef, m21.clef.TenorClef, m21.clef.TrebleClef])
            m.insert(at, c())
            want.append((b * 4.0 + at, c.__name__))
        p.append(m)
    s.insert(0, p)
    return s, want


@native
def clefs_in(s):
    return [(float(c.getOffsetInHierarchy(s)), type(c).__name__) for c in s.recurse().getElementsByClass(m21.clef.Clef)]
