"""Everything a user can see of a score, for C21."""
import io
import re
import music21 as m21
from pyvc.api import native


@native
def out_file():
    return io.StringIO()


def style_of(x):
    if not x.hasStyleInformation:
        return []
    plain = type(x.style)()
    return sorted((k, repr(v)) for k, v in vars(x.style).items() if v not in (None, [], '') and v != getattr(plain, k, None))


def shown(x):
    """one element: what it is, its time, and what is attached to it"""
    d = x.duration
    out = [type(x).__name__, str(x.id), str(d.quarterLength), d.type, d.dots, d.isGrace,
           [(t.numberNotesActual, t.numberNotesNormal, t.type, t.bracket, t.placement) for t in d.tuplets]]
    if isinstance(x, m21.note.NotRest):
        out.append([(p.nameWithOctave, p.accidental and (p.accidental.displayStatus, p.accidental.displayType)) for p in x.pitches])
        out.append([(b.type, b.number, b.direction) for b in x.beams])
        out.append([x.stemDirection, x.notehead])
    if isinstance(x, m21.chord.Chord):
        out.append([(n.tie and (n.tie.type, n.tie.style, n.tie.placement), str(n.id), style_of(n), custom(n)) for n in x.notes])
    if isinstance(x, m21.note.GeneralNote):
        out.append(x.tie and (x.tie.type, x.tie.style, x.tie.placement))
        out.append([(y.text, y.syllabic, y.number, y.identifier) for y in x.lyrics])
        out.append([(type(y).__name__, getattr(y, 'placement', None), style_of(y), custom(y)) for y in x.articulations + x.expressions])
    if isinstance(x, m21.spanner.Spanner):
        ends = x.getSpannedElements()
        if isinstance(x, m21.spanner.Ottava):                       # what is between its ends may be filled in (music21's Spanner.fill)
            ends = [x.getFirst(), x.getLast()]
        out.append([id(y) for y in ends])
    elif isinstance(x, m21.stream.Stream):
        out.append(str(x.atSoundingPitch))
    else:
        out.append(re.sub('0x[0-9a-f]+', '', repr(x)))
    return out + [style_of(x), custom(x)]


def custom(x):
    """attributes that are not music21's own"""
    return sorted((k, repr(v)) for k, v in vars(x).items() if re.match('(xml_id|c21_|mei|hum)', k))


@native
def portrait(score):
    out = []
    for x in score.recurse(includeSelf=True):
        out.append((id(x), str(x.offset), id(x.activeSite), shown(x)))
    out.append([(k, str(v)) for k, v in score.metadata.all()] if score.metadata else None)
    return out


WITH = ('nothing', 'beams', 'tuplets', 'ties', 'lines', 'words', 'marks', 'grace', 'hidden', 'signs', 'symbols', 'transposed', 'repeats', 'groups', 'rests', 'mixed', 'sixteenths', 'shakes', 'uneven', 'long rests')


@native
def furnished(what, parts, voices):
    """a small score with some of what music21 scores have"""
    s = m21.stream.Score()
    s.metadata = m21.metadata.Metadata(title='A', composer='B')
    for p in range(parts):
        part = m21.stream.Part()
        all_notes = []
        for b in range(2):
            m = m21.stream.Measure(number=b + 1)
            if b == 0:
                if what == 'transposed' and p == 0:
                    m.insert(0, m21.instrument.Clarinet())
                m.insert(0, m21.clef.TrebleClef())
                m.insert(0, m21.key.KeySignature(1))
                m.insert(0, m21.meter.TimeSignature('2/4'))
            elif what in ('signs', 'mixed'):
                m.insert(0, m21.clef.BassClef())
                m.insert(0, m21.key.Key('d'))
                m.insert(0, m21.tempo.MetronomeMark('Presto', 120))
            for v in range(max(1, voices)):
                at = m
                if voices:
                    at = m21.stream.Voice(id=str(v + 1))
                    m.insert(0, at)
                notes = [m21.chord.Chord(['C4', 'E-4']) if i == 1 else m21.note.Note(['G4', 'C5', 'F#4', 'B4'][i]) for i in range(4)]
                for n in notes:
                    n.duration.type = 'eighth'
                if what in ('tuplets', 'mixed'):
                    for n in notes[:3]:
                        n.duration.appendTuplet(m21.duration.Tuplet(3, 2, 'eighth'))
                    notes[0].duration.tuplets[0].type, notes[2].duration.tuplets[0].type = 'start', 'stop'
                    notes[3].duration = m21.duration.Duration(1)
                elif what == 'rests':
                    notes[2] = m21.note.Rest(type='eighth')
                elif what == 'hidden':
                    notes[2] = m21.note.Rest(type='eighth')
                    notes[2].style.hideObjectOnPrint = True
                    notes[0].style.hideObjectOnPrint = True
                if what == 'grace':
                    g = m21.note.Note('D5', type='16th').getGrace()
                    notes.insert(2, g)
                if what == 'sixteenths':
                    notes = [m21.note.Note('C5', type='16th') for i in range(8)]
                    for i, n in enumerate(notes):
                        n.beams.append('start' if i == 0 else 'stop' if i == 7 else 'continue')
                        n.beams.append('start' if i % 4 == 0 else 'stop' if i % 4 == 3 else 'continue')
                if what == 'uneven' and (p or v):
                    del notes[3]
                if what == 'long rests' and b:
                    notes = [m21.note.Rest(type='whole')]
                for n in notes:
                    at.append(n)
                if what in ('beams', 'mixed'):
                    if what == 'beams':
                        for n, t in zip(notes, ('start', 'continue', 'continue', 'stop')):
                            n.beams.append(t)
                if what in ('ties', 'mixed'):
                    notes[1].notes[0].tie = m21.tie.Tie('let-ring')
                    notes[3].tie = m21.tie.Tie('start' if b == 0 else 'stop')
                    notes[3].pitch.name = 'B'
                if what in ('words', 'mixed'):
                    notes[0].lyric = 'ky-'
                    notes[1].lyric = 'rie'
                    at.insert(0.5, m21.dynamics.Dynamic('p'))
                    at.insert(1, m21.expressions.TextExpression('dolce'))
                if what in ('marks', 'mixed'):
                    notes[0].articulations += [m21.articulations.Staccato(), m21.articulations.Accent()]
                    notes[1].expressions += [m21.expressions.ArpeggioMark(), m21.expressions.Fermata()]
                    notes[3].expressions += [m21.expressions.Trill()]
                if what == 'shakes':
                    notes[0].expressions += [m21.expressions.Trill()]
                    trem = m21.expressions.Tremolo()
                    trem.numberOfMarks = 2
                    notes[1].expressions.append(trem)
                    at.insert(1, m21.dynamics.Dynamic('sf'))
                    notes[3].expressions += [m21.expressions.Turn(), m21.expressions.Schleifer()]
                all_notes += notes
            if what in ('symbols', 'mixed') and p == 0:
                m.insert(0, m21.harmony.ChordSymbol('Am7'))
            if what == 'repeats':
                if b == 0:
                    m.leftBarline = m21.bar.Repeat(direction='start')
                else:
                    m.rightBarline = m21.bar.Repeat(direction='end')
            part.append(m)
        if what in ('lines', 'mixed'):
            part.insert(0, m21.spanner.Slur(all_notes[0], all_notes[2]))
            part.insert(0, m21.dynamics.Crescendo(all_notes[0], all_notes[1]))
            part.insert(0, m21.spanner.Ottava(all_notes[1], all_notes[2]))
        if what == 'shakes':
            part.insert(0, m21.expressions.TrillExtension(all_notes[0], all_notes[1]))
            part.insert(0, m21.expressions.TremoloSpanner(all_notes[2], all_notes[3]))
        if what in ('groups', 'mixed'):
            part.partName, part.partAbbreviation = f'Part {p}', f'P{p}'
        s.insert(0, part)
    if what == 'transposed' and parts > 1:
        for x in [s] + list(s.parts):
            x.atSoundingPitch = False
    if what in ('groups', 'mixed') and parts > 1:
        s.insert(0, m21.layout.StaffGroup(list(s.parts), symbol='brace', name='N'))
    return s


@native
def settled(text):
    """without the date of writing, and with ids numbered in order"""
    text = re.sub(r'isodate="[^"]*"|!!!ENC.*|!!!EED.*|!!!VTS.*|<date[^>]*>[^<]*</date>|<date[^>]*/>', '', text)
    ids = {}
    names = set(re.findall(r'xml:id="([^"]*)"', text))
    for m in re.finditer(r'xml:id="([^"]*)"', text):
        ids.setdefault(m.group(1), f'i{len(ids)}')
    return re.sub(r'"([^"]*)"', lambda m: '"' + ' '.join(('#' if w[:1] == '#' else '') + ids.get(w.lstrip('#'), w.lstrip('#')) for w in m.group(1).split(' ')) + '"', text) if names else text


@native
def text_of(f):
    return settled(f.getvalue())
