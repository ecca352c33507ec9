"""Random songs (lyrics, dynamics, hairpins, tempo marks, texts) described by themselves, as music21 scores and as Humdrum text, for the bounded stand-ins."""
import random
from fractions import Fraction
import music21 as m21

SYL = ['la', 'kyrie', 'no', 'Ky', 'ri', "l'a", 'Gott', '3', 'ü', 'e.', 'ah!', 'a_b', 'x,', '*ah', '!oh', 'wäh']
LABELS = ['V1', 'd', 'Chor.', '(solo)', '[1]', 'a+']
DYN = ['p', 'f', 'mf', 'mp', 'pp', 'ff', 'ppp', 'fff', 'sf', 'sfz', 'fp', 'fz', 'rf', 'rfz', 'sffz', 'pppp', 'p dolce', '( mf )', '[ f ]', 'molto p', 'f con fuoco']
WORDS = ['dolce', 'sempre legato', 'con moto: piu', 'a b', 'arco']
TEMPO = ['Allegro', 'Andante', 'Largo', 'Presto']


class Song:
    def __init__(self, seed, parts=None):
        r = random.Random(seed)
        self.nparts = parts or r.choice([1, 1, 2])
        self.nbars = r.choice([1, 2, 3])
        self.parts = []
        for p in range(self.nparts):
            notes = []
            verses = r.choice([0, 1, 1, 2, 3])
            inside = [False] * 4
            for b in range(self.nbars):
                off = Fraction(0)
                while off < 4:
                    d = r.choice([x for x in (Fraction(1, 2), Fraction(1), Fraction(2), Fraction(3, 2)) if x <= 4 - off])
                    n = dict(bar=b, off=off, dur=d, pitch=r.choice(['C4', 'D4', 'E4', 'F4']), verses={}, dyn=None, wedge=None, text=None, tempo=None)
                    for v in range(verses):
                        if r.random() < .6:
                            n['verses'][v + 1] = (r.choice(SYL), r.choice(['single', 'begin', 'middle', 'end']))
                        if v + 1 in n['verses'] and r.random() < .1:
                            n['verses'][v + 1] += (r.choice(LABELS),)
                        elif v + 1 in n['verses']:
                            n['verses'][v + 1] += (None,)
                    if r.random() < .25:
                        n['dyn'] = (r.choice(DYN), r.choice(['above', 'below']))
                    if r.random() < .1:
                        n['text'] = (r.choice(WORDS), r.choice(['above', 'below']))
                    if p == 0 and r.random() < (.1 if off else .4):
                        n['tempo'] = (r.choice([40, 60, 92, 100, 144]), r.choice([None] + TEMPO))
                        if n['tempo'] == (None, None):
                            n['tempo'] = None
                    notes.append(n)
                    off += d
            i = 0
            while i + 1 < len(notes):
                if r.random() < .15:
                    j = r.randrange(i + 1, min(len(notes), i + 4))
                    notes[i]['wedge'] = (r.choice('<>'), j)
                    for k in range(i + 1, j + 1):          # a dynamic ends a hairpin
                        notes[k]['dyn'] = None
                    i = j + 1
                i += 1
            self.parts.append(notes)

    def score(self):
        s = m21.stream.Score()
        for p, notes in enumerate(self.parts):
            part = m21.stream.Part()
            bars = [m21.stream.Measure(number=b + 1) for b in range(self.nbars)]
            bars[0].insert(0, m21.clef.TrebleClef())
            bars[0].insert(0, m21.key.KeySignature(0))
            bars[0].insert(0, m21.meter.TimeSignature('4/4'))
            objs = []
            for n in notes:
                x = m21.note.Note(n['pitch'])
                x.duration = m21.duration.Duration(n['dur'])
                for v, (text, syllabic, label) in n['verses'].items():
                    ly = m21.note.Lyric(number=v)
                    ly.text, ly.syllabic = text, syllabic
                    if label:
                        ly.identifier = label
                    x.lyrics.append(ly)
                m = bars[n['bar']]
                m.insert(n['off'], x)
                objs.append(x)
                if n['dyn']:
                    dy = m21.dynamics.Dynamic(n['dyn'][0])
                    if n['dyn'][1]:
                        dy.placement = n['dyn'][1]
                    m.insert(n['off'], dy)
                if n['text']:
                    te = m21.expressions.TextExpression(n['text'][0])
                    te.placement = n['text'][1]
                    m.insert(n['off'], te)
                if n['tempo']:
                    num, text = n['tempo']
                    m.insert(n['off'], m21.tempo.MetronomeMark(text=text, number=num))
            for i, n in enumerate(notes):
                if n['wedge']:
                    w = m21.dynamics.Crescendo() if n['wedge'][0] == '<' else m21.dynamics.Diminuendo()
                    w.addSpannedElements(objs[i], objs[n['wedge'][1]])
                    part.insert(0, w)
            for m in bars:
                part.append(m)
            s.insert(0, part)
        return s

    def kern(self):
        """the first part as Humdrum text, from the definition of the format"""
        notes = self.parts[0]
        top = max([0] + [v for n in notes for v in n['verses']])
        stops = {n['wedge'][1]: n['wedge'][0] for n in notes if n['wedge']}
        lines = [['**kern'] + ['**text'] * top + ['**dynam'], ['*clefG2'] + ['*'] * top + ['*'], ['*M4/4'] + ['*'] * top + ['*']]
        bar = None
        for i, n in enumerate(notes):
            if n['bar'] != bar:
                bar = n['bar']
                lines.append(['=%d' % (bar + 1)] * (2 + top))
            row = [n['verses'][v + 1][2] if v + 1 in n['verses'] else None for v in range(top)]
            if any(row):
                lines.append(['*'] + ['*v:' + x if x else '*' for x in row] + ['*'])
            if n['tempo']:
                lines.append(['*MM%d' % n['tempo'][0]] + ['*'] * (1 + top))
            if n['text']:
                lines.append(['!LO:TX:%s:t=%s' % (n['text'][1][0], n['text'][0].replace(':', '&colon;'))] + ['!'] * (1 + top))
            dyn = ''
            if n['dyn']:
                word, text = n['dyn'][0], ''
                if ' ' in word:
                    for d in ('mf', 'p', 'f'):
                        if d in word.split():
                            text = {'( ': ':ed=paren', '[ ': ':ed=brack'}.get(word[:2], ':t=' + ' '.join('%s' if x == d else x for x in word.split()))
                            word = d
                            break
                lines.append(['!'] * (1 + top) + ['!LO:DY:%s%s' % (n['dyn'][1][0], text)])
                dyn = word
            if n['wedge']:
                dyn += n['wedge'][0]
            if i in stops:
                dyn += {'<': '[[', '>': ']]'}[stops[i]]
            rec = {Fraction(1, 2): '8', Fraction(1): '4', Fraction(2): '2', Fraction(3, 2): '4.'}[n['dur']]
            words = []
            for v in range(top):
                text = '.'
                if v + 1 in n['verses']:
                    text, syllabic, _ = n['verses'][v + 1]
                    text = ('-' if syllabic in ('middle', 'end') else '') + text + ('-' if syllabic in ('begin', 'middle') else '')
                    if text[0] in '*!':
                        text = '\\' + text
                words.append(text)
            lines.append([rec + n['pitch'][0].lower()] + words + [dyn or '.'])
        lines += [['=='] * (2 + top), ['*-'] * (2 + top)]
        return '\n'.join('\t'.join(x) for x in lines) + '\n'

    def lyrics(self):
        return [[(n['bar'], n['off'], v) + x for n in notes for v, x in sorted(n['verses'].items())] for notes in self.parts]

    def dynamics(self):
        return [[(n['bar'], n['off']) + n['dyn'] for n in notes if n['dyn']] for notes in self.parts]

    def texts(self):
        return [[(n['bar'], n['off']) + n['text'] for n in notes if n['text']] for notes in self.parts]

    def tempos(self):
        return [(n['bar'], n['off']) + n['tempo'][:1] for n in self.parts[0] if n['tempo']]

    def wedges(self):
        return [[(4 * n['bar'] + n['off'], n['wedge'][0], self.end(notes[n['wedge'][1]])) for n in notes if n['wedge']] for notes in self.parts]

    def end(self, n):
        return 4 * n['bar'] + n['off'] + n['dur']


def where(x, part):
    off = x.getOffsetInHierarchy(part)
    for b, m in enumerate(part.getElementsByClass('Measure')):
        if m.offset <= off < m.offset + 4:
            return (b, Fraction(off - m.offset))


def lyrics(score):
    out = []
    for p in score.parts:
        row = []
        for n in p.recurse().notes:
            if isinstance(n, m21.harmony.Harmony):
                continue
            for ly in sorted(n.lyrics, key=lambda y: y.number):
                row.append(where(n, p) + (ly.number, ly.text, ly.syllabic, ly.identifier if ly.identifier != ly.number else None))
        out.append(row)
    return out


def dynamics(score):
    return [[where(d, p) + (' '.join(d.value.split()), d.placement) for d in p.recurse().getElementsByClass('Dynamic')] for p in score.parts]


def texts(score):
    return [[where(d, p) + (d.content, d.placement) for d in p.recurse().getElementsByClass('TextExpression')] for p in score.parts]


def tempos(score):
    return [where(d, score.parts[0]) + (d.number,) for d in score.parts[0].recurse().getElementsByClass('MetronomeMark')]


def wedges(score):
    """[part] -> (start time, kind, end time)"""
    out = [[] for p in score.parts]
    for w in score.recurse().getElementsByClass('DynamicWedge'):
        for i, p in enumerate(score.parts):
            a, b = w.getFirst(), w.getLast()
            if any(x is a for x in p.recurse()):
                out[i].append((Fraction(a.getOffsetInHierarchy(p)), '<' if isinstance(w, m21.dynamics.Crescendo) else '>',
                               Fraction(b.getOffsetInHierarchy(p) + b.quarterLength)))
    return [sorted(x) for x in out]


def differs(song, score, parts=None):
    """None, or what of the song the score does not have"""
    for what, f in (('lyrics', lyrics), ('dynamics', dynamics), ('texts', texts), ('wedges', wedges)):
        if f(score)[:parts] != getattr(song, what)()[:parts]:
            return what
    return None if tempos(score) == song.tempos() else 'tempos'
