"""Random well-formed Humdrum files together with what a reader has to make of them, for the bounded stand-ins.

The description is built while the file is built, from the format's definition alone; nothing here calls converter21."""
import random
from fractions import Fraction

RECIPS = {'1': Fraction(4), '2': Fraction(2), '4': Fraction(1), '8': Fraction(1, 2), '16': Fraction(1, 4), '4.': Fraction(3, 2),
          '8.': Fraction(3, 4), '6': Fraction(2, 3), '12': Fraction(1, 3), '2.': Fraction(3)}


class Tok:
    """one field of one line"""
    def __init__(self, text, spine, kind):
        self.text, self.kind = text, kind
        self.track, self.type = spine['track'], spine['type']
        self.prev, self.next = [], []
        self.dur = None          # own duration, when it has one
        self.of = None           # the data token a null token stands for


class Line:
    def __init__(self, text, toks, kind, start):
        self.text, self.toks, self.kind, self.start = text, toks, kind, start
        self.dur = self.frombar = self.tobar = None


def rhythm(rnd, total, grace):
    """a sequence of (text, duration) lasting total"""
    out = []
    left = total
    while left:
        if grace and rnd.random() < .12:
            out.append((rnd.choice(['8', '16', '4', '']) + 'q', Fraction(0)))
        fits = [r for r, d in RECIPS.items() if d <= left and (left - d) % Fraction(1, 4) == 0]
        if rnd.random() < .2 and left >= 1 and left % 1 == 0:
            for _ in range(3):
                out.append(('12', Fraction(1, 3)))
            left -= 1
            continue
        r = rnd.choice([f for f in fits if f not in ('6', '12')])
        out.append((r, RECIPS[r]))
        left -= RECIPS[r]
    return out


def pitch(rnd):
    if rnd.random() < .15:
        return 'r'
    p = rnd.choice('abcdefg') * rnd.choice([1, 1, 2])
    p = p.upper() if rnd.random() < .4 else p
    return p + rnd.choice(['', '', '', '#', '-', 'n'])


class Score:
    def __init__(self, seed, kern=None, text=None, splits=True, grace=True, exchange=True, measures=None, comments=True, nulls=True):
        self.rnd = rnd = random.Random(seed)
        self.lines, self.last = [], None
        kern = kern or rnd.choice([1, 1, 2, 3])
        text = rnd.choice([0, 0, 1, 2]) if text is None else text
        self.spines = []
        for k in range(kern):
            self.spines.append({'track': len(self.spines) + 1, 'type': '**kern', 'path': ''})
            if text and rnd.random() < .6:
                text -= 1
                self.spines.append({'track': len(self.spines) + 1, 'type': rnd.choice(['**text', '**dynam']), 'path': ''})
        self.time = Fraction(0)
        self.tracks = len(self.spines)
        self.comments = comments
        self.glob('!!!OTL: number %d' % seed)
        self.put([s['type'] for s in self.spines], 'interp')
        self.put(['*M4/4' if s['type'] == '**kern' else '*' for s in self.spines], 'interp')
        count = measures or rnd.choice([1, 2, 3])
        for m in range(count):
            if m or rnd.random() < .6:
                self.put(['=%d' % (m + 1)] * len(self.spines), 'bar')
            if splits:
                for _ in range(rnd.choice([0, 1, 1, 2])):
                    self.manipulate(exchange)
            self.noise()
            self.measure(rnd.choice([Fraction(4), Fraction(4), Fraction(3), Fraction(2), Fraction(1)]), grace, nulls)
        if rnd.random() < .7:
            self.put(['=='] * len(self.spines), 'bar')
        while splits and rnd.random() < .8 and self.merge_some():
            pass
        self.put(['*-'] * len(self.spines), 'interp')
        if rnd.random() < .5:
            self.glob('!!!ENC: nobody')
        self.finish()

    def text(self):
        return ''.join(x.text + '\n' for x in self.lines)

    # lines

    def glob(self, text):
        self.lines.append(Line(text, None, 'global', None))

    def noise(self):
        if not self.comments:
            return
        rnd = self.rnd
        if rnd.random() < .15:
            self.glob(rnd.choice(['!! a comment', '!!!AGN: x y', '!!LO:X:t=hello']))
        if rnd.random() < .15:
            self.put([rnd.choice(['!', '! words', '!LO:N:smi']) for _ in self.spines], 'comment')
        if rnd.random() < .1:
            self.put([rnd.choice(['*', '*', '*clefG2']) if s['type'] == '**kern' else '*' for s in self.spines], 'interp')

    def put(self, texts, kind, start=None, new=None):
        """adds a line; new: what each field of the NEXT line comes from, when not just the same field"""
        toks = [Tok(t, s, kind) for t, s in zip(texts, self.spines)]
        if self.last is not None:
            for k, sources in enumerate(self.came):
                for i in sources:
                    self.last[i].next.append(toks[k])
                    toks[k].prev.append(self.last[i])
        self.last = toks
        self.came = new if new is not None else [[i] for i in range(len(toks))]
        self.lines.append(Line('\t'.join(texts), toks, kind, start))
        return toks

    # spine manipulations

    def manipulate(self, exchange=True):
        rnd = self.rnd
        kind = rnd.choice(['split', 'split', 'split', 'merge', 'merge', 'exchange', 'end', 'add'] if exchange else ['split', 'split', 'merge'])
        if kind == 'split' and len(self.spines) < 7:
            texts, came, spines = [], [], []
            for i, s in enumerate(self.spines):
                if rnd.random() < .45:
                    texts.append('*^')
                    came += [[i], [i]]
                    spines += [dict(s, path=s['path'] + 'a'), dict(s, path=s['path'] + 'b')]
                else:
                    texts.append('*')
                    came.append([i])
                    spines.append(s)
            self.move(texts, came, spines)
        elif kind == 'merge':
            self.merge_some()
        elif kind == 'end':
            i = rnd.randrange(len(self.spines))
            left = [s for s in self.spines if s['track'] != self.spines[i]['track']]
            if self.time > self.spines[i].get('since', 0) and any(s['type'] == '**kern' for s in left) and self.spines[i]['path'] == '':
                texts = ['*-' if k == i else '*' for k in range(len(self.spines))]
                self.move(texts, [[k] for k in range(len(texts)) if k != i], [s for k, s in enumerate(self.spines) if k != i])
        elif kind == 'add':
            i = rnd.randrange(len(self.spines))
            if (i + 1 == len(self.spines) or self.spines[i]['track'] != self.spines[i + 1]['track']):
                self.tracks += 1
                spine = {'track': self.tracks, 'type': rnd.choice(['**kern', '**text']), 'path': '', 'since': self.time}
                texts = ['*+' if k == i else '*' for k in range(len(self.spines))]
                came = [[k] for k in range(len(texts))]
                came.insert(i + 1, [])
                self.move(texts, came, self.spines[:i + 1] + [spine] + self.spines[i + 1:])
                self.put([spine['type'] if s is spine else '*' for s in self.spines], 'interp')
        elif kind == 'exchange':
            for i in range(len(self.spines) - 1):
                a, b = self.spines[i:i + 2]
                if a['track'] != b['track'] and all(s['path'] == '' for s in (a, b)) and rnd.random() < .3:
                    texts = ['*'] * len(self.spines)
                    texts[i] = texts[i + 1] = '*x'
                    came = [[k] for k in range(len(texts))]
                    came[i], came[i + 1] = came[i + 1], came[i]
                    spines = list(self.spines)
                    spines[i], spines[i + 1] = b, a
                    self.move(texts, came, spines)
                    return

    def merge_some(self):
        rnd = self.rnd
        i, texts, came, spines, done = 0, [], [], [], False
        while i < len(self.spines):
            s = self.spines[i]
            if (i + 1 < len(self.spines) and s['track'] == self.spines[i + 1]['track'] and s['path'][:-1] == self.spines[i + 1]['path'][:-1]
                    and s['path'].endswith('a') and rnd.random() < .7 and (not texts or texts[-1] != '*v')):
                n = 2
                base = s['path'][:-1]
                rest = self.spines[i + 2:i + 3]     # sometimes all three halves (of halves) at once
                if (s['path'].endswith('aa') and rest and rest[0]['track'] == s['track'] and rest[0]['path'] == base[:-1] + 'b'
                        and rnd.random() < .6):
                    n, base = 3, base[:-1]
                texts += ['*v'] * n
                came.append(list(range(i, i + n)))
                spines.append(dict(s, path=base))
                i += n
                done = True
            else:
                texts.append('*')
                came.append([i])
                spines.append(s)
                i += 1
        if done:
            self.move(texts, came, spines)
        return done

    def move(self, texts, came, spines):
        if all(t == '*' for t in texts):
            return
        self.put(texts, 'interp', new=came)
        self.spines = spines

    # a measure of music

    def measure(self, total, grace, nulls):
        rnd = self.rnd
        lanes = []
        for s in self.spines:
            if s['type'] == '**kern':
                at, seq = Fraction(0), []
                for text, d in rhythm(rnd, total, grace):
                    seq.append((at, text, d))
                    at += d
                lanes.append(seq)
            else:
                lanes.append(None)
        # grace notes come before the notes of their time; each on a line of its own
        times = sorted({(at, d > 0) for lane in lanes if lane for at, _, d in lane})
        for at, real in times:
            queue = [[x for x in lane if x[0] == at and (x[2] > 0) == real] if lane else [] for lane in lanes]
            for n in range(max(len(q) for q in queue)):
                texts, durs = [], []
                for s, q in zip(self.spines, queue):
                    if s['type'] != '**kern':
                        texts.append(rnd.choice(['.', 'la', 'le', 'p']) if real else '.')
                        durs.append(None)
                    elif n < len(q):
                        text = q[n][1] + pitch(rnd)
                        texts.append(text)
                        durs.append(q[n][2])
                    else:
                        texts.append('.')
                        durs.append(None)
                for tok, d in zip(self.put(texts, 'data', self.time + at), durs):
                    tok.dur = d
            if rnd.random() < .1:
                self.noise()
        self.time += total

    # what follows

    def finish(self):
        after = self.time
        for line in reversed(self.lines):
            if line.toks is not None and line.start is None and line.kind == 'interp' and all(t.text == '*-' for t in line.toks):
                line.start = after
            if line.start is None:
                line.start = after if line.toks is not None or after is not None else None
            after = line.start
        seen_end = False
        for line in self.lines:
            if line.toks is not None and all(t.text == '*-' for t in line.toks):
                seen_end = True
            if seen_end:
                line.start = self.time
        for a, b in zip(self.lines, self.lines[1:]):
            a.dur = b.start - a.start
        self.lines[-1].dur = Fraction(0)
        run = Fraction(0)
        for line in self.lines:
            line.frombar = run
            run += line.dur
            if line.kind == 'bar':
                run = Fraction(0)
        run = Fraction(0)
        for line in reversed(self.lines):
            run += line.dur
            line.tobar = run
            if line.kind == 'bar':
                run = Fraction(0)
