"""Random music described by itself, spelled as Humdrum text, as MEI text and as a music21 score, for the bounded stand-ins.

The Humdrum and MEI spellings are made here from the formats' definitions alone; nothing here calls converter21."""
import random
from fractions import Fraction
import music21 as m21

DUR = {Fraction(4): '1', Fraction(2): '2', Fraction(1): '4', Fraction(1, 2): '8', Fraction(1, 4): '16', Fraction(3): '2.', Fraction(3, 2): '4.',
       Fraction(3, 4): '8.', Fraction(1, 3): '12', Fraction(2, 3): '6', Fraction(1, 8): '32', Fraction(7, 2): '2..'}
PLAIN = [d for d in DUR if d.denominator not in (3,)]
CLEFS = {'G2': ('G', 2), 'F4': ('F', 4), 'C3': ('C', 3), 'C4': ('C', 4)}
SHARPS = 'fcgdaeb'


class Event:
    def __init__(self, off, dur, pitches, grace=False):
        self.off, self.dur, self.pitches, self.grace = off, dur, pitches, grace     # pitches: [(step, alter, octave)], [] = rest
        self.ties = [''] * len(pitches)
        self.tuplet = ''


class Music:
    def __init__(self, seed, parts=None, grace=True, ties=True):
        r = self.rnd = random.Random(seed)
        self.nparts = parts or r.choice([1, 1, 2, 3])
        self.nbars = r.choice([2, 3, 4])
        self.meters, self.keys, self.clefs, self.bars = [], [], [], []
        meter = (4, 4)
        for b in range(self.nbars):
            if b == 0 or r.random() < .25:
                meter = r.choice([(4, 4), (3, 4), (2, 4), (6, 8), (3, 8), (2, 2), (5, 4)])
            self.meters.append(meter)
        key = 0
        for b in range(self.nbars):
            if b == 0 or r.random() < .2:
                key = r.randint(-7, 7)
            self.keys.append(key)
        for p in range(self.nparts):
            row, clef = [], 'G2'
            for b in range(self.nbars):
                if b == 0 or r.random() < .15:
                    clef = r.choice(list(CLEFS))
                row.append(clef)
            self.clefs.append(row)
        self.right = [r.choice(['', '', '', '||', ':|!']) for _ in range(self.nbars - 1)] + [r.choice(['==', '==:|!'])]
        self.music = []              # [part][bar][voice] -> [Event]
        for p in range(self.nparts):
            col = []
            for b in range(self.nbars):
                n, d = self.meters[b]
                total = Fraction(4 * n, d)
                col.append([self.voice(total, grace) for _ in range(r.choice([1, 1, 1, 2]))])
            self.music.append(col)
        if ties:
            self.tie()

    def pitch(self):
        r = self.rnd
        return (r.choice('cdefgab'), r.choice([0, 0, 0, 0, 1, -1, 1, -1, 2, -2]), r.choice([2, 3, 4, 4, 5, 6]))

    def chord(self):
        r = self.rnd
        out = []
        for _ in range(r.choice([1, 1, 1, 1, 2, 3])):
            p = self.pitch()
            if (p[0], p[2]) not in [(q[0], q[2]) for q in out]:
                out.append(p)
        return out

    def voice(self, total, grace):
        r, out, off = self.rnd, [], Fraction(0)
        while off < total:
            left = total - off
            if grace and r.random() < .06:
                out.append(Event(off, Fraction(0), [self.pitch()], True))
            if left >= 1 and off.denominator == 1 and r.random() < .15:
                durs = r.choice([[Fraction(1, 3)] * 3, [Fraction(2, 3), Fraction(1, 3)], [Fraction(1, 3), Fraction(2, 3)]])
                for i, d in enumerate(durs):
                    e = Event(off, d, self.chord() if r.random() > .1 else [])
                    e.tuplet = 'start' if i == 0 else 'stop' if i == len(durs) - 1 else 'in'
                    out.append(e)
                    off += d
                continue
            d = r.choice([x for x in PLAIN if x <= left])
            out.append(Event(off, d, self.chord() if r.random() > .15 else []))
            off += d
        return out

    def tie(self):
        """tie some notes to the next event of the voice (also over a barline when both bars have that voice)"""
        r = self.rnd
        for col in self.music:
            for v in range(2):
                prev = None
                for b in range(self.nbars):
                    seq = col[b][v] if v < len(col[b]) else []
                    if not seq or (prev is not None and b and v >= len(col[b - 1])):
                        prev = None
                    for e in seq:
                        if e.grace:
                            prev = None
                            continue
                        if prev is not None and prev.pitches and e.pitches and r.random() < .2:
                            # tie the first note, when it fits
                            i = r.randrange(len(prev.pitches))
                            p = prev.pitches[i]
                            here = [(q[0], q[2]) for q in e.pitches]
                            if (p[0], p[2]) not in here:
                                e.pitches.append(p)
                                e.ties.append('')
                            other = [f for w, seq2 in enumerate(col[b]) if w != v for f in seq2]
                            if any(p in f.pitches and f.off == e.off for f in other):
                                pass                    # the same pitch in the other voice at that time
                            elif p in e.pitches:
                                j = e.pitches.index(p)
                                prev.ties[i] = 'continue' if prev.ties[i] == 'stop' else 'start'
                                e.ties[j] = 'stop'
                        prev = e

    # ---------------------------------------------------------------- what it is

    def described(self):
        """[part][bar] -> sorted voices, each a tuple of (offset, duration, ((pitch, tie)...)); rests have no pitches"""
        out = []
        for p in range(self.nparts):
            out.append([sorted(tuple((e.off, e.dur, tuple(sorted(zip(map(name, e.pitches), e.ties)))) for e in v) for v in self.music[p][b])
                        for b in range(self.nbars)])
        return out

    # ---------------------------------------------------------------- Humdrum

    def kern(self, notate=True):
        lines = []

        def row(items):
            lines.append('\t'.join(items))
        order = list(range(self.nparts - 1, -1, -1))          # the lowest part comes first
        row(['**kern' for p in order])
        row(['*part%d' % (p + 1) for p in order])
        row(['*staff%d' % (p + 1) for p in order])
        width = {p: 1 for p in order}
        for b in range(self.nbars):
            want = {p: len(self.music[p][b]) for p in order}
            if b:
                row(['=%d%s' % (b + 1, self.right[b - 1]) for p in order for _ in range(width[p])])
            for p in order:
                if width[p] > want[p]:
                    row([x for q in order for x in (['*v', '*v'] if q == p else ['*'] * width[q])])
                    width[p] = 1
            for what, f in (('clef', lambda p: '*clef' + self.clefs[p][b]), ('key', lambda p: '*k[' + keytext(self.keys[b]) + ']'),
                            ('meter', lambda p: '*M%d/%d' % self.meters[b])):
                new = []
                for p in order:
                    now = f(p)
                    old = None
                    if b:
                        old = {'clef': '*clef' + self.clefs[p][b - 1], 'key': '*k[' + keytext(self.keys[b - 1]) + ']',
                               'meter': '*M%d/%d' % self.meters[b - 1]}[what]
                    new += ['*' if now == old else now] * width[p]
                if any(x != '*' for x in new):
                    row(new)
            if any(width[p] < want[p] for p in order):
                row(['*^' if width[p] < want[p] else '*' for p in order for _ in range(width[p])])
                for p in order:
                    width[p] = max(width[p], want[p])
            if b == 0:
                row(['=1' for p in order for _ in range(width[p])])
            voices = [v for p in order for v in self.music[p][b]]
            at = {}
            for i, v in enumerate(voices):
                for k, e in enumerate(v):
                    # a grace note goes on a line of its own before the note it precedes
                    later = sum(1 for f in v[k:] if f.grace and f.off == e.off)
                    at.setdefault((e.off, -later if e.grace else 0), {})[i] = e
            for key in sorted(at):
                row([kern_token(at[key][i]) if i in at[key] else '.' for i in range(len(voices))])
        row([self.right[-1] for p in order for _ in range(width[p])])
        for p in order:
            if width[p] > 1:
                row([x for q in order for x in (['*v', '*v'] if q == p else ['*'] * width[q])])
                width[p] = 1
        row(['*-' for p in order])
        return '\n'.join(lines) + '\n'

    # ---------------------------------------------------------------- MEI

    def mei(self):
        out = []

        def sig(b):
            k = self.keys[b]
            ks = '0' if k == 0 else '%d%s' % (abs(k), 's' if k > 0 else 'f')
            return 'keysig="%s" meter.count="%d" meter.unit="%d"' % ((ks,) + self.meters[b])
        out.append('<?xml version="1.0" encoding="UTF-8"?><mei xmlns="http://www.music-encoding.org/ns/mei" meiversion="5.0"><meiHead/><music><body><mdiv><score>')
        out.append('<scoreDef %s><staffGrp>' % sig(0))
        for p in range(self.nparts):
            out.append('<staffDef n="%d" lines="5" clef.shape="%s" clef.line="%s"/>' % ((p + 1,) + tuple(self.clefs[p][0])))
        out.append('</staffGrp></scoreDef><section>')
        for b in range(self.nbars):
            if b and (self.keys[b], self.meters[b]) != (self.keys[b - 1], self.meters[b - 1]):
                out.append('<scoreDef %s/>' % sig(b))
            right = {'': '', '||': ' right="dbl"', ':|!': ' right="rptend"', '==': ' right="end"', '==:|!': ' right="rptend"'}[self.right[b]]
            out.append('<measure n="%d"%s>' % (b + 1, right))
            for p in range(self.nparts):
                out.append('<staff n="%d">' % (p + 1))
                for i, v in enumerate(self.music[p][b]):
                    out.append('<layer n="%d">' % (i + 1))
                    if b and i == 0 and self.clefs[p][b] != self.clefs[p][b - 1]:
                        out.append('<clef shape="%s" line="%s"/>' % tuple(self.clefs[p][b]))
                    for e in v:
                        if e.tuplet == 'start':
                            out.append('<tuplet num="3" numbase="2">')
                        out.append(mei_event(e))
                        if e.tuplet == 'stop':
                            out.append('</tuplet>')
                    out.append('</layer>')
                out.append('</staff>')
            out.append('</measure>')
        out.append('</section></score></mdiv></body></music></mei>')
        return '\n'.join(out)

    # ---------------------------------------------------------------- music21

    def score(self):
        s = m21.stream.Score()
        for p in range(self.nparts):
            part = m21.stream.Part()
            for b in range(self.nbars):
                m = m21.stream.Measure(number=b + 1)
                if b == 0 or self.clefs[p][b] != self.clefs[p][b - 1]:
                    m.insert(0, m21.clef.clefFromString(self.clefs[p][b]))
                if b == 0 or self.keys[b] != self.keys[b - 1]:
                    m.insert(0, m21.key.KeySignature(self.keys[b]))
                if b == 0 or self.meters[b] != self.meters[b - 1]:
                    m.insert(0, m21.meter.TimeSignature('%d/%d' % self.meters[b]))
                vs = self.music[p][b]
                for i, v in enumerate(vs):
                    where = m
                    if len(vs) > 1:
                        where = m21.stream.Voice(id=str(i + 1))
                        m.insert(0, where)
                    for e in v:
                        where.insert(e.off, m21_event(e)) if len(vs) > 1 else m.insert(e.off, m21_event(e))
                if b == self.nbars - 1:
                    m.rightBarline = m21.bar.Repeat('end') if ':' in self.right[b] else m21.bar.Barline('final')
                elif self.right[b] == ':|!':
                    m.rightBarline = m21.bar.Repeat('end')
                elif self.right[b] == '||':
                    m.rightBarline = m21.bar.Barline('double')
                part.append(m)
            s.insert(0, part)
        return s


def keytext(n):
    return ''.join(x + '#' for x in SHARPS[:n]) if n >= 0 else ''.join(x + '-' for x in SHARPS[::-1][:-n])


def name(p):
    return p[0].upper() + ('#' * p[1] if p[1] > 0 else '-' * -p[1]) + str(p[2])


def kern_pitch(p):
    step, alter, octave = p
    letters = step * (octave - 3) if octave > 3 else step.upper() * (4 - octave)
    return letters + ('#' * alter if alter > 0 else '-' * -alter)


def kern_token(e):
    rec = ('8q' if e.grace else DUR[e.dur])
    if not e.pitches:
        return rec + 'r'
    return ' '.join(('[' if t == 'start' else '') + rec + kern_pitch(p) + ({'continue': '_', 'stop': ']'}.get(t, ''))
                    for p, t in zip(e.pitches, e.ties))


def mei_event(e):
    rec = DUR[e.dur * 3 / 2 if e.tuplet else e.dur] if not e.grace else '8'
    dur = 'dur="%s"' % rec.rstrip('.') + (' dots="%d"' % rec.count('.') if '.' in rec else '') + (' grace="unacc"' if e.grace else '')
    if not e.pitches:
        return '<rest %s/>' % dur
    ns = ['<note pname="%s" oct="%d" accid="%s"%s%s/>' % (
        p[0], p[2], {0: 'n', 1: 's', 2: 'x', -1: 'f', -2: 'ff'}[p[1]],
        ' tie="%s"' % {'start': 'i', 'continue': 'm', 'stop': 't'}[t] if t else '', '' if len(e.pitches) > 1 else ' ' + dur) for p, t in zip(e.pitches, e.ties)]
    return ns[0] if len(ns) == 1 else '<chord %s>%s</chord>' % (dur, ''.join(ns))


def m21_event(e):
    if not e.pitches:
        n = m21.note.Rest()
    elif len(e.pitches) == 1:
        n = m21.note.Note(name(e.pitches[0]))
        if e.ties[0]:
            n.tie = m21.tie.Tie(e.ties[0])
    else:
        n = m21.chord.Chord([m21.note.Note(name(p)) for p in e.pitches])
        for x, t in zip(n.notes, e.ties):
            if t:
                x.tie = m21.tie.Tie(t)
    if e.grace:
        n.duration = m21.duration.Duration('eighth')
        return n.getGrace()
    n.duration = m21.duration.Duration(e.dur)
    return n


def found(score):
    """the same description of a music21 score"""
    out = []
    for part in score.parts:
        bars = []
        for m in part.getElementsByClass('Measure'):
            vs = []
            for v in (list(m.voices) or [m]):
                seq = []
                for n in v.notesAndRests:
                    if isinstance(n, m21.harmony.Harmony) or (n.isRest and n.hasStyleInformation and n.style.hideObjectOnPrint):
                        continue
                    ps = []
                    if not n.isRest:
                        for x in (n.notes if isinstance(n, m21.chord.Chord) else [n]):
                            ps.append((x.pitch.nameWithOctave, x.tie.type if x.tie is not None else n.tie.type if n.tie is not None and len(n.pitches) == 1 else ''))
                    seq.append((Fraction(n.offset), Fraction(n.duration.quarterLength), tuple(sorted(ps))))
                if seq:
                    vs.append(tuple(seq))
            bars.append(sorted(vs))
        out.append(bars)
    return out


def signs(score):
    """[part][bar] -> (clef, sharps, meter) in force at its start"""
    out = []
    for part in score.parts:
        row, clef, key, meter = [], None, None, None
        for m in part.getElementsByClass('Measure'):
            for x in m.recurse().getElementsByClass('Clef'):
                clef = x.sign + str(x.line)
            for x in m.recurse().getElementsByClass('KeySignature'):
                key = x.sharps
            for x in m.recurse().getElementsByClass('TimeSignature'):
                meter = (x.numerator, x.denominator)
            row.append((clef, key, meter))
        out.append(row)
    return out


def ends(score):
    """[part][bar] -> right barline: '', 'double', 'final' or 'repeat'"""
    def one(m):
        x = m.rightBarline
        return '' if x is None or x.type == 'regular' and not isinstance(x, m21.bar.Repeat) else 'repeat' if isinstance(x, m21.bar.Repeat) else x.type
    return [[one(m) for m in p.getElementsByClass('Measure')] for p in score.parts]


def numbers(score):
    return [[m.number for m in p.getElementsByClass('Measure')] for p in score.parts]


BARS = {'': '', '||': 'double', ':|!': 'repeat', '==': 'final', '==:|!': 'repeat'}


def same(m, score):
    """None, or what of the music the score does not have"""
    if found(score) != m.described():
        return 'notes'
    if signs(score) != [[(m.clefs[p][b], m.keys[b], m.meters[b]) for b in range(m.nbars)] for p in range(m.nparts)]:
        return 'clefs, key or time signatures'
    if ends(score) != [[BARS[x] for x in m.right]] * m.nparts:
        return 'barlines'
    if numbers(score) != [list(range(1, m.nbars + 1))] * m.nparts:
        return 'measure numbers'
    return None


def mei_chords(first, second):
    """two measures of a chord in each staff, the chords of the first measure tied as a whole"""
    out = ['<?xml version="1.0" encoding="UTF-8"?><mei xmlns="http://www.music-encoding.org/ns/mei" meiversion="5.0"><meiHead/><music><body><mdiv><score>'
           '<scoreDef meter.count="1" meter.unit="4"><staffGrp>']
    out += ['<staffDef n="%d" lines="5" clef.shape="G" clef.line="2"/>' % (n + 1) for n in range(len(first))]
    out.append('</staffGrp></scoreDef><section>')
    for b, bar in enumerate((first, second)):
        out.append('<measure n="%d">' % (b + 1))
        for n, chord in enumerate(bar):
            out.append('<staff n="%d"><layer n="1"><chord dur="4" tie="%s">%s</chord></layer></staff>' % (
                n + 1, 't' if b else 'i', ''.join('<note pname="%s" oct="4"/>' % p for p in chord)))
        out.append('</measure>')
    return ''.join(out) + '</section></score></mdiv></body></music></mei>'


def tied(score):
    """[part] -> the letters of the notes of its first measure that start a tie"""
    return [sorted(n.pitch.name.lower() for c in p.getElementsByClass('Measure')[0].recurse().notes for n in c.notes if n.tie is not None)
            for p in score.parts]
