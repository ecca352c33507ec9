"""The parts of a score: their order, their names, and the groups they are in."""
from pyvc.api import *
from converter21.humdrum import HumdrumFile, HumdrumWriter, M21Convert
from converter21.shared import M21Utilities, M21StaffGroupTree
from converter21.mei.meireader import MeiReader
from converter21.mei.meiscore import MeiScore
from specs._common import Rec
from specs._e2e import read_krn, write_krn, read_mei, write_mei
from specs._parts import *
from specs.mei import reader, element
from xml.etree.ElementTree import TreeBuilder
import music21 as m21

P = Prop('C19')
W = 'converter21.humdrum.humdrumwriter:HumdrumWriter.'
U = 'converter21.shared.m21utilities:M21Utilities.'
R = 'converter21.mei.meireader:MeiReader.'
F = 'converter21.humdrum.humdrumfile:HumdrumFile.'
MS = 'converter21.mei.meiscore:MeiScore.'
NEST = [x for n in (2, 3, 4) for x in nestings(n)]
DEEP = [(((0, 1, 2), (3, 4)), 5), ((0, ((1, 2, 3), (4, 5))),), ((0, (1, (2, 3)), 4), 5), (0, (((1, 2), 3), (4, 5))),
        tuple(range(6)) + ((6, (7, 8)),), ((*range(7), (7, 8), 9),), (*range(6), (6, (7, (8, 9), 10)))]
LAYOUTS = OneOf(*[tuple(x) for x in NEST], *DEEP)
NS = '{http://www.music-encoding.org/ns/mei}'


@native
def groups_and_numbers(n, groups):
    parts = [m21.stream.Part() for _ in range(n)]
    out = []
    for sym, bar, st in groups:
        g = m21.layout.StaffGroup([parts[i] for i in st])
        g.symbol, g.barTogether = sym, bar
        out.append(g)
    return parts, out, {p: i + 1 for i, p in enumerate(parts)}


def flat_trees(trees, inside=()):
    """(staves, staves of the enclosing groups) of every node"""
    out = []
    for t in trees:
        mine = tuple(sorted(x - 1 for x in t.staffNums))
        out.append(((t.staffGroup.symbol, t.staffGroup.barTogether, mine), inside))
        out += flat_trees(t.children, inside + (mine,))
    return out


@P.lemma(layout=LAYOUTS, style=OneOf(0, 1), turned=OneOf(False, True), targets=[U + 'getStaffGroupTrees', U + '_sortStaffGroupTrees'])
def trees(layout, style, turned):
    """every group has its place in the tree: inside all the groups that hold its staves, before the groups below it"""
    n = len(staves_of(layout))
    groups = groups_of(layout, style)
    parts, sgs, numbers = groups_and_numbers(n, groups[::-1] if turned else groups)
    got = flat_trees(M21Utilities.getStaffGroupTrees(sgs, numbers))
    assert sorted([x for x, _ in got], key=str) == sorted(groups, key=str)
    for (_, _, st), inside in got:
        for out in inside:
            assert set(st) <= set(out)
        assert len(inside) == len([g for g in groups if set(st) < set(g[2])]) + (1 if st in inside else 0)
    tops = [x[2] for x, inside in got if not inside]
    assert tops == sorted(tops)


@P.lemma(layout=LAYOUTS, style=OneOf(0, 1), turned=OneOf(False, True),
         targets=[W + '_getSystemDecoration', W + '_appendRecursiveDecoString', W + '_getGlobalStaffNumbersForM21Parts'])
def decoration_written(layout, style, turned):
    """the system decoration says exactly which staves are in which group, every staff once"""
    n = len(staves_of(layout))
    groups = groups_of(layout, style)
    parts, sgs, numbers = groups_and_numbers(n, groups[::-1] if turned else groups)
    text = new_writer(parts, sgs)._getSystemDecoration()
    if not groups:
        assert text == ''
    else:
        got, staves = parse_decoration(text)
        assert got == sorted(groups, key=str)
        assert staves == list(range(n))


@native
def new_writer(parts, sgs):
    w = HumdrumWriter(m21.stream.Score())
    w._scoreData = Rec(parts=[Rec(staves=[Rec(m21PartStaff=p)]) for p in parts])
    w.spannerBundle = m21.spanner.SpannerBundle(sgs)
    return w


DISTINCT = OneOf(*[x for x in [tuple(x) for x in NEST] + DEEP if distinct(x)])


@P.lemma(layout=DISTINCT, style=OneOf(0, 1, 2), targets=[W + '_appendRecursiveDecoString'])
def bars_written(layout, style):
    """staves that only share their barlines are written as such, inside and outside other groups"""
    n = len(staves_of(layout))
    groups = groups_of(layout, style, BARE)
    parts, sgs, numbers = groups_and_numbers(n, groups)
    text = new_writer(parts, sgs)._getSystemDecoration()
    if groups:
        got, staves = parse_decoration(text)
        assert got == sorted(groups, key=str)
        assert staves == list(range(n))


class Ready(Exception):
    pass


class UpToParts(HumdrumFile):
    def _createStaffGroupsAndParts(self):
        raise Ready


@native
def up_to_parts(text):
    """the file as it is when its parts are about to be made"""
    f = UpToParts()
    f.readString(text)
    try:
        f.createMusic21Stream()
    except Ready:
        return f
    raise AssertionError('no parts')


LETTERS = [('Part ' + x, 'P' + x) for x in 'ABCDEFGHIJKL']


@P.lemma(layout=LAYOUTS, style=OneOf(0, 3), by=OneOf('s', 'p'),
         targets=[F + '_createStaffGroupsAndParts', F + '_processSystemDecoration', F + '_sortGroupDescriptionTrees',
                  F + '_processStaffGroupDescriptionTree', F + '_prepartPartInstrumentInfo', F + '_createPart',
                  F + '_getStaffNumberLabel', F + '_getPartNumberLabel', F + '_getGroupNumberLabel', F + '_shouldFakeOnePartAndOrAllStaves'])
def decoration_grouped(layout, style, by):
    """each staff of a Humdrum file has its own part, with its own name, from top to bottom, and the groups of the decoration hold exactly the staves they name"""
    n = len(staves_of(layout))
    groups = groups_of(layout, style)
    f = up_to_parts(krn_text(layout, style, LETTERS, by))
    HumdrumFile._createStaffGroupsAndParts(f)
    assert names_in(f.m21Score) == LETTERS[:n]
    if groups:
        assert groups_in(f.m21Score) == sorted(groups, key=str)


@P.lemma(layout=DISTINCT, style=OneOf(0, 1, 2), targets=[F + '_processSystemDecoration', F + '_processStaffGroupDescriptionTree'])
def bars_grouped(layout, style):
    """staves that only share their barlines are read as a group without a sign, which changes no group around or inside it"""
    n = len(staves_of(layout))
    groups = groups_of(layout, style, BARE)
    f = up_to_parts(krn_text(layout, style, LETTERS, 's', BARE))
    HumdrumFile._createStaffGroupsAndParts(f)
    assert names_in(f.m21Score) == LETTERS[:n]
    if groups:
        assert groups_in(f.m21Score) == sorted(groups, key=str)


@P.lemma(symbol=OneOf('brace', 'bracket', 'square'), targets=[W + '_appendRecursiveDecoString'])
def group_signs(symbol):
    """each kind of group has its own pair of signs, read as that kind"""
    a, b = M21Convert.m21GroupSymbolToHumdrumDecoGroupStyleStart[symbol], M21Convert.m21GroupSymbolToHumdrumDecoGroupStyleStop[symbol]
    assert a + b == {'brace': '{}', 'bracket': '[]', 'square': '<>'}[symbol]
    assert M21Convert.humdrumDecoGroupStyleToM21GroupSymbol[a] == symbol


SYM = {'brace': 'brace', 'bracket': 'bracket', 'square': 'bracketsq'}


@native
def grp_element(layout, style, names):
    count = [style]

    def item(x):
        if isinstance(x, int):
            e = element(NS + 'staffDef', {'n': str(x + 1), 'label': names[x][0], 'label.abbr': names[x][1]})
            return e
        s, b = STYLES[count[0] % len(STYLES)]
        count[0] += 1
        e = element(NS + 'staffGrp', {'symbol': SYM[s], 'bar.thru': str(b).lower()})
        for y in x:
            e.append(item(y))
        return e
    top = element(NS + 'staffGrp', {})
    for x in layout:
        top.append(item(x))
    return top


TREE_NAMES = [('Flute', 'Fl.'), ('Oboe', 'Ob.'), ('Part C', 'C'), ('Horn', 'Hn')] + [(f'Staff {i}', f'S{i}') for i in range(5, 13)]


@P.lemma(layout=LAYOUTS, style=OneOf(0, 1), targets=[R + 'staffGroupDescriptionTreeFromStaffGrp', R + 'processStaffGroupDescriptionTree',
                                                    R + '_groupShouldContainPartStaffs', R + '_instrumentFromStaffDefOrStaffGrp'])
def mei_groups_read(layout, style):
    """each staff of an MEI score definition has its own part, with its own name, in the groups that hold it, from top to bottom"""
    n = len(staves_of(layout))
    r = reader()
    tree = r.staffGroupDescriptionTreeFromStaffGrp(grp_element(layout, style, TREE_NAMES), None)
    ns = tuple([str(i + 1) for i in range(n)])
    groups, parts, ids = r.processStaffGroupDescriptionTree(tree, ns)
    assert ids == list(ns)
    assert [(p.partName, p.partAbbreviation) for p in parts] == TREE_NAMES[:n]
    got = []
    for g in groups:
        st = tuple([i for i in range(n) if any(x is parts[i] for x in g.getSpannedElements())])
        assert len(st) == len(g.getSpannedElements())
        if g.symbol != 'none' and g.symbol is not None:
            got.append((g.symbol, g.barTogether, st))
    assert sorted(got, key=str) == sorted(groups_of(layout, style), key=str)


def mei_shape(e):
    """the layout an MEI staffGrp element spells, and its groups"""
    staves, groups = [], []
    for x in e:
        if x.tag == 'staffDef':
            staves.append(int(x.get('n')) - 1)
        elif x.tag == 'staffGrp':
            st, gr = mei_shape(x)
            if x.get('symbol') is not None:
                sym = {v: k for k, v in SYM.items()}[x.get('symbol')]
                groups.append((sym, x.get('bar.thru') == 'true', tuple(st)))
            groups += gr
            staves += st
    return staves, groups


class Bare(MeiScore):
    def makeStaffDefElement(self, part, staffN, tb):
        assert self.m21PartsForStaffNumbers[staffN] is part          # (the rest of it is C12's)
        tb.start('staffDef', {'n': str(staffN)})
        tb.end('staffDef')


@native
def mei_score(n, groups):
    return Bare(score_of(n, groups), '5')


@P.lemma(layout=LAYOUTS, style=OneOf(0, 1), targets=[MS + 'makeScoreDefElement', MS + 'makeStaffGrpElement', MS + 'makeStaffGrpOrStaffDefElementStartingAt',
                                                    MS + '_findTopStaffGroupTreeStartingWith', MS + '_nonGroupedStavesExist'])
def mei_groups_written(layout, style):
    """the score definition of an MEI file holds every staff once, from top to bottom, in exactly its groups"""
    n = len(staves_of(layout))
    groups = groups_of(layout, style)
    x = mei_score(n, groups)
    tb = TreeBuilder()
    x.makeScoreDefElement(tb)
    staves, got = mei_shape(tb.close())
    assert staves == list(range(n))
    assert sorted(got, key=str) == sorted(groups, key=str)


SEED = Int(0, 10 ** 6)


@P.bounded('random nested groups over 2-6 parts with names, written as Humdrum and read again', seed=SEED, quick=60, thorough=3000,
           targets=[W + 'write', 'converter21.humdrum.humdrumfile:HumdrumFile._processSystemDecoration'])
def parts_survive_humdrum(seed):
    """order, names, abbreviations and groups of the parts"""
    n, layout = random_layout(seed)
    groups = groups_of(layout, seed % 6)
    names = random_names(seed, n)
    s = read_krn(write_krn(score_of(n, groups, names, seed), False))
    assert parts_of(s) == list(range(n))
    assert names_in(s) == names
    if groups:
        assert groups_in(s) == sorted(groups, key=str)


@P.bounded('such scores of 2-12 parts, written as MEI and read again', seed=SEED, quick=60, thorough=3000,
           targets=[MS + 'makeScoreDefElement', R + 'scoreDefFromElement'])
def parts_survive_mei(seed):
    """order and groups of the parts"""
    n, layout = random_layout(seed, 12)
    groups = groups_of(layout, seed % 6)
    s = read_mei(write_mei(score_of(n, groups, None, seed), False))
    assert parts_of(s) == list(range(n))
    assert groups_in(s) == sorted(groups, key=str)


@P.bounded('Humdrum texts with system decorations over 2-12 parts, by staff or part number', seed=SEED, quick=60, thorough=3000,
           targets=['converter21.humdrum.humdrumfile:HumdrumFile._processSystemDecoration'])
def decoration_read(seed):
    """a decoration groups exactly the staves it names, whether by their own or by their part's number"""
    n, layout = random_layout(seed, 12)
    groups = groups_of(layout, seed % 6)
    names = [('Part ' + 'ABCDEFGHIJKL'[i], 'P' + 'ABCDEFGHIJKL'[i]) for i in range(n)]
    s = read_krn(krn_text(layout, seed % 6, names, 'sp'[seed // 6 % 2]))
    assert names_in(s) == names
    if groups:
        assert groups_in(s) == sorted(groups, key=str)


@P.bounded('Humdrum texts with system decorations in which some staves only share their barlines', seed=SEED, quick=60, thorough=3000,
           targets=['converter21.humdrum.humdrumfile:HumdrumFile._processSystemDecoration'])
def bars_read(seed):
    """such a group is read as a group without a sign, and changes no group around or inside it"""
    n, layout = random_layout(seed, 8)
    groups = groups_of(layout, seed % 5, BARE)
    if distinct(layout) and groups:
        names = [('Part ' + 'ABCDEFGHIJKL'[i], 'P' + 'ABCDEFGHIJKL'[i]) for i in range(n)]
        s = read_krn(krn_text(layout, seed % 5, names, 's', BARE))
        assert names_in(s) == names
        assert groups_in(s) == sorted(groups, key=str)


@P.bounded('MEI texts with nested staff groups over 2-6 staves', seed=SEED, quick=60, thorough=3000, targets=[R + 'scoreDefFromElement', R + 'run'])
def mei_names_read(seed):
    """the label of each staff names the part with the notes of that staff, and each group holds its own staves"""
    n, layout = random_layout(seed)
    names = random_names(seed, n, True)
    s = read_mei(mei_text(layout, seed % 6, names, seed % 2 == 0))
    assert [p.recurse().notes[0].pitch.name for p in s.parts] == list('CDEFGAB'[:n])
    assert names_in(s) == names
    assert groups_in(s) == sorted(groups_of(layout, seed % 6), key=str)
