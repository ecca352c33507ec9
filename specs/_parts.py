"""Scores of several parts with names and (nested) staff groups, described by themselves, for C19."""
import random
import re
import music21 as m21
from pyvc.api import native

OPEN = {'{': 'brace', '[': 'bracket', '<': 'square'}
NAMES = ['Flute', 'Violin 1', 'My Part', 'Soprano', 'Clarinet', 'Tenor & Bass', 'Oboe', "Viola d'amore", 'x y', 'Horn in F']
ABBREVS = ['Fl.', 'Vln. 1', 'X', 'a b', 'S', '1']


def nestings(n, depth=2, first=0):
    """every way to put n staves into groups of two or more, nested up to depth: lists of staff numbers and tuples (groups)"""
    if n == 0:
        return [[]]
    out = [[first] + rest for rest in nestings(n - 1, depth, first + 1)]
    if depth:
        for k in range(2, n + 1):
            for inner in nestings(k, depth - 1, first):
                out += [[tuple(inner)] + rest for rest in nestings(n - k, depth, first + k)]
    return out


def staves_of(x):
    return [x] if isinstance(x, int) else [s for y in x for s in staves_of(y)]


STYLES = [('brace', True), ('bracket', False), ('square', True), ('bracket', True), ('brace', False), ('square', False)]


def groups_of(layout, style=0, styles=STYLES):
    """the groups of a layout, outermost first: (symbol, barlines through, staves)"""
    out = []
    for x in layout:
        if not isinstance(x, int):
            sym, bar = styles[(style + len(out)) % len(styles)]
            out.append((sym, bar, tuple(staves_of(x))))
            out += groups_of(x, style + len(out), styles)
    return out


BARE = [('brace', False), (None, True), ('bracket', True), (None, True), ('square', False)]


def distinct(layout):
    """no group consists of one group only"""
    return all(isinstance(x, int) or (len(x) > 1 and distinct(x)) for x in layout)


def parse_decoration(text):
    """the groups (symbol, barlines through, staves) and the staves in a system decoration, from its definition"""
    groups, staves, open_ = [], [], []
    i = 0
    while i < len(text):
        c = text[i]
        if c in OPEN or c == '(':
            open_.append((c, i, len(staves)))
        elif c in '}])>':
            o, at, first = open_.pop()
            assert o + c in ('{}', '[]', '()', '<>')
            groups.append((o, at, i, tuple(staves[first:])))
        elif c == 's':
            j = i + 1
            while j < len(text) and text[j].isdigit():
                j += 1
            staves.append(int(text[i + 1:j]) - 1)
            i = j - 1
        else:
            assert c == ','
        i += 1
    assert not open_
    out = []
    for o, a, b, s in groups:
        if o == '(':
            if not any(x[0] != '(' and x[1] == a - 1 and x[2] == b + 1 for x in groups):
                out.append((None, True, s))
        else:
            out.append((OPEN[o], any(x[0] == '(' and x[1] == a + 1 and x[2] == b - 1 for x in groups), s))
    return sorted(out, key=str), staves


@native
def score_of(n, groups, names=None, shuffle=None):
    s = m21.stream.Score()
    parts = []
    for p in range(n):
        part = m21.stream.Part()
        m = m21.stream.Measure(number=1)
        m.append([m21.clef.TrebleClef(), m21.key.KeySignature(0), m21.meter.TimeSignature('4/4')])
        m.append(m21.note.Note(midi=60 + p, type='whole'))
        if names and names[p][0]:
            inst = m21.instrument.Instrument()
            inst.partName, inst.partAbbreviation = names[p]
            m.insert(0, inst)
            part.partName, part.partAbbreviation = names[p]
        part.append(m)
        s.insert(0, part)
        parts.append(part)
    order = list(groups)
    if shuffle is not None:
        random.Random(shuffle).shuffle(order)
    for sym, bar, st in order:
        g = m21.layout.StaffGroup([parts[i] for i in st])
        g.symbol, g.barTogether = sym, bar
        s.insert(0, g)
    return s


@native
def parts_of(score):
    """the staves in order, by the pitch of their note"""
    return [p.recurse().notes[0].pitch.midi - 60 for p in score.parts]


@native
def groups_in(score):
    at = {id(p): i for i, p in enumerate(score.parts)}
    out = []
    for g in score.getElementsByClass(m21.layout.StaffGroup):
        if g.symbol not in (None, 'none') or g.barTogether:
            out.append((g.symbol, bool(g.barTogether), tuple(sorted(at[id(p)] for p in g.getSpannedElements()))))
    return sorted(out, key=str)


@native
def names_in(score):
    return [(p.partName or None, p.partAbbreviation or None) for p in score.parts]


@native
def random_layout(seed, most=6):
    r = random.Random(seed)
    n = r.choice(range(2, most + 1))

    def some(a, b, depth):
        out, i = [], a
        while i < b:
            k = r.randrange(1, b - i + 1)
            if k >= 2 and depth and r.random() < .7:
                out.append(tuple(some(i, i + k, depth - 1)))
                i += k
            else:
                out.append(i)
                i += 1
        return out
    return n, some(0, n, 3)


@native
def random_names(seed, n, distinct=False):
    r = random.Random(seed)
    return [(r.choice(NAMES), r.choice(ABBREVS)) for _ in range(n)] if not distinct else list(zip(r.sample(NAMES, n), [r.choice(ABBREVS) for _ in range(n)]))


@native
def mei_text(layout, groups_style, names, spelled):
    """an MEI file of the layout, from the definition of the format"""
    count = [groups_style]
    sym = {'brace': 'brace', 'bracket': 'bracket', 'square': 'bracketsq'}

    def esc(x):
        return x.replace('&', '&amp;').replace('"', '&quot;')

    def item(x):
        if isinstance(x, int):
            nm, ab = names[x]
            if spelled:
                return f'<staffDef n="{x + 1}" lines="5"><label>{esc(nm)}</label><labelAbbr>{esc(ab)}</labelAbbr><clef shape="G" line="2"/></staffDef>'
            return f'<staffDef n="{x + 1}" lines="5" label="{esc(nm)}" label.abbr="{esc(ab)}"><clef shape="G" line="2"/></staffDef>'
        s, b = STYLES[count[0] % len(STYLES)]
        count[0] += 1
        return f'<staffGrp symbol="{sym[s]}" bar.thru="{str(b).lower()}">' + ''.join(item(y) for y in x) + '</staffGrp>'
    staves = staves_of(layout)
    body = ''.join(f'<staff n="{i + 1}"><layer n="1"><note dur="1" pname="{"cdefgab"[i]}" oct="4"/></layer></staff>' for i in range(len(staves)))
    return ('<?xml version="1.0" encoding="UTF-8"?><mei xmlns="http://www.music-encoding.org/ns/mei" meiversion="5.0"><meiHead><fileDesc><titleStmt>'
            '<title>t</title></titleStmt><pubStmt/></fileDesc></meiHead><music><body><mdiv><score><scoreDef meter.count="4" meter.unit="4"><staffGrp>'
            + ''.join(item(x) for x in layout) + '</staffGrp></scoreDef><section><measure n="1">' + body
            + '</measure></section></score></mdiv></body></music></mei>')


@native
def krn_text(layout, style, names, by, choices=STYLES):
    """a Humdrum file of the layout; by: 's' names staves, 'p' names parts in the decoration"""
    n = len(staves_of(layout))
    styles = [style]
    close = {'{': '}', '[': ']', '<': '>'}
    opener = {v: k for k, v in OPEN.items()}

    def item(x):
        if isinstance(x, int):
            return f'{by}{x + 1}'
        s, b = choices[styles[0] % len(choices)]
        styles[0] += 1
        inner = ','.join(item(y) for y in x)
        inner = '(' + inner + ')' if b else inner
        return opener[s] + inner + close[opener[s]] if s else inner
    deco = ','.join(item(x) for x in layout)
    back = list(reversed(range(n)))
    rows = [['**kern'] * n, [f'*part{i + 1}' for i in back], [f'*staff{i + 1}' for i in back], ['*I"' + names[i][0] for i in back],
            ["*I'" + names[i][1] for i in back], ['*clefG2'] * n, ['*M4/4'] * n, ['1' + 'cdefgabCDEFGABcc'[i] for i in back], ['=='] * n, ['*-'] * n]
    return '!!!system-decoration: ' + deco + '\n' + '\n'.join('\t'.join(x) for x in rows) + '\n'
