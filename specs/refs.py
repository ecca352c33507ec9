"""The identities of MEI: ids are unique, and what refers to an element names the right one."""
from pyvc.api import *
from converter21.shared import M21Utilities
from converter21.shared.m21utilities import M21BeamSpanner, M21TupletSpanner, M21TieSpanner
from converter21.mei.meireader import MeiReader
from converter21.mei.m21objectconvert import M21ObjectConvert
from specs._e2e import read_krn, read_mei, write_mei
from specs._refs import *
from specs._song import Song
from specs._music import Music
from specs.mei import reader, element, treebuilder, built
import music21 as m21

P = Prop('C20')
U = 'converter21.shared.m21utilities:M21Utilities.'
O = 'converter21.mei.m21objectconvert:M21ObjectConvert.'
R = 'converter21.mei.meireader:MeiReader.'
NS = '{http://www.music-encoding.org/ns/mei}'
XML = '{http://www.w3.org/XML/1998/namespace}id'

# ---------------------------------------------------------------- ids


@P.lemma(parts=OneOf(1, 2), bars=OneOf(1, 2), voices=OneOf(0, 1, 2, 3), names=OneOf('numbers', 'texts', 'none'), chords=OneOf(False, True),
         targets=[U + 'assureAllXmlIds', U + 'assureXmlId', U + 'makeXmlIdFrom', U + 'getXmlIdPrefixFor', U + 'getXmlId'])
def own_ids(parts, bars, voices, names, chords):
    """everything in a score gets an id of its own that XML allows, however its voices are numbered"""
    score = small_score(parts, bars, voices, names, chords)
    M21Utilities.assureAllXmlIds(score)
    ids = [M21Utilities.getXmlId(x, required=True) for x in everything(score)]
    assert len(set(ids)) == len(ids)
    for x in ids:
        assert valid_id(x)


@P.lemma(given=OneOf('note-1', 'n1', 'abc', 'Note7'), what=OneOf(*KINDS), targets=[U + 'assureXmlId', U + 'makeXmlIdFrom', U + 'getXmlIdPrefixFor'])
def given_ids(given, what):
    """an id that was given is kept as it is"""
    x = thing(what)
    set_id(x, given)
    M21Utilities.assureXmlId(x)
    assert M21Utilities.getXmlId(x) == given


BIG = m21.defaults.minIdNumberToConsiderMemoryLocation
NUMBERS = OneOf(0, 1, 25, 26, 27, BIG - 1, BIG, BIG + 1, BIG + 25, BIG + 26, BIG * 26, BIG * 26 + 1, 2 ** 47, 2 ** 47 - 16, 2 ** 62,
                26 ** 9, 2 * 26 ** 9, 26 ** 9 + 5, 2 * 26 ** 9 + 5, 26 ** 10, 26 ** 10 + 26 ** 9, 26 ** 10 - 1)


@P.lemma(a=NUMBERS,
         b=NUMBERS,
         prefix=OneOf('note', 'layer'), targets=[U + 'makeXmlIdFrom'])
def number_ids(a, b, prefix):
    """different numbers give different ids"""
    x, y = M21Utilities.makeXmlIdFrom(a, prefix), M21Utilities.makeXmlIdFrom(b, prefix)
    assert (x == y) == (a == b)
    assert valid_id(x)


# ---------------------------------------------------------------- references written

@P.lemma(what=OneOf(*SPANNERS), count=OneOf(1, 2, 3, 4), chords=OneOf(False, True),
         targets=[O + 'postStavesSpannerToMei', O + '_fillInStandardPostStavesAttributes', O + 'fillInArpeggioAttributes'])
def spanners_written(what, count, chords):
    """what a line or bracket is attached to is named by the ids of exactly these notes, in their order"""
    score, notes, spanner = spanned(what, count, chords)
    M21Utilities.assureAllXmlIds(score)
    M21Utilities.assureXmlId(spanner)
    ids = [M21Utilities.getXmlId(n, required=True) for n in notes]
    tb = treebuilder()
    M21ObjectConvert.postStavesSpannerToMei(spanner, '1', score, first_bar(score), meters(score), {}, score.spannerBundle, tb)
    out = built(tb)
    assert len(out) == 1
    attr = out[0].attrib
    assert attr['startid'] == '#' + ids[0]
    if what in ('crescendo', 'diminuendo'):
        assert 'endid' not in attr
    elif count > 1:
        assert attr['endid'] == '#' + ids[-1]
    else:
        assert 'endid' not in attr
    if what in ('arpeggio', 'beam', 'tuplet'):
        assert attr['plist'] == ' '.join(['#' + x for x in ids])
    else:
        assert 'plist' not in attr
    assert attr['xml:id'] == M21Utilities.getXmlId(spanner)


@P.lemma(what=OneOf('clef', 'meter', 'key'), given=OneOf('', 'x1'), targets=[O + 'convertM21ObjectToMeiSameAs'])
def same_as_written(what, given):
    """the clef, meter or key that other layers share refers to the one that was written"""
    x = thing(what)
    if given:
        set_id(x, given)
    M21Utilities.assureXmlId(x)
    tb = treebuilder()
    M21ObjectConvert.convertM21ObjectToMeiSameAs(x, tb)
    out = built(tb)
    assert len(out) == 1 and out[0].tag == {'clef': 'clef', 'meter': 'meterSig', 'key': 'keySig'}[what]
    assert dict(out[0].attrib) == {'sameas': '#' + M21Utilities.getXmlId(x)}


# ---------------------------------------------------------------- references read

CLEFS = {('G', '2'): m21.clef.TrebleClef, ('F', '4'): m21.clef.BassClef, ('C', '3'): m21.clef.AltoClef, ('C', '4'): m21.clef.TenorClef}


@native
def clef_document(r, clefs, same):
    root = element(NS + 'mei', {})
    for i, (s, l) in enumerate(clefs):
        root.append(element(NS + 'clef', {XML: f'c{i}', 'shape': s, 'line': l}))
    e = element(NS + 'clef', {'sameas': same})
    root.append(e)
    r.documentRoot = root
    return e


@P.lemma(first=OneOf(*CLEFS), second=OneOf(*CLEFS), which=OneOf(0, 1), sign=OneOf('#', ''), targets=[R + '_clefFromElement'])
def same_as_read(first, second, which, sign):
    """a clef that is the same as another one is that clef, and is not shown again"""
    r = reader()
    e = clef_document(r, [first, second], sign + 'c' + str(which))
    c = r._clefFromElement(e)
    assert type(c) is CLEFS[(first, second)[which]]
    assert c.style.hideObjectOnPrint


@native
def plist_document(tag, attr):
    root = element(NS + 'mei', {})
    at = root
    for x in ('music', 'score', 'measure'):
        n = element(NS + x, {})
        at.append(n)
        at = n
    e = element(NS + tag, attr)
    at.append(e)
    return root


class Preparing(MeiReader):
    """a reader as it is before its document is gone through"""
    def __init__(self, root):
        self.documentRoot = root
        self.m21Attr = {x: {} for x in IDS + ['']}
        self.spannerBundle = bundle()


@native
def bundle():
    return m21.spanner.SpannerBundle()


IDS = ['n1', 'n2', 'n3', 'n4']


@P.lemma(tag=OneOf('arpeg', 'tupletSpan', 'beamSpan'), count=OneOf(1, 2, 3, 4), sign=OneOf('#', ''), ends=OneOf(False, True),
         targets=[R + '_ppArpeggios', R + '_ppTuplets', R + '_ppBeams'])
def lists_read(tag, count, sign, ends):
    """a list of references reaches exactly the elements it names"""
    attr = {'plist': ' '.join([sign + x for x in IDS[:count]])}
    if ends or tag == 'beamSpan':
        attr['startid'], attr['endid'] = sign + IDS[0], sign + IDS[count - 1]
    if tag == 'tupletSpan':
        attr['num'], attr['numbase'] = '3', '2'
    r = Preparing(plist_document(tag, attr))
    {'arpeg': r._ppArpeggios, 'tupletSpan': r._ppTuplets, 'beamSpan': r._ppBeams}[tag]()
    got = {k: dict(v) for k, v in r.m21Attr.items() if v}
    if tag == 'beamSpan' and count == 1:
        return
    assert sorted(got) == IDS[:count]
    if tag == 'arpeg':
        assert len(set([str(v) for v in got.values()])) == 1
        assert len([x for x in r.spannerBundle]) == (1 if count > 1 else 0)
    elif tag == 'tupletSpan':
        for v in got.values():
            assert v['m21TupletNum'] == '3' and v['m21TupletNumbase'] == '2'
    else:
        assert [got[x]['m21Beam'] for x in IDS[:count]] == ['start'] + ['continue'] * (count - 2) + ['stop']


# ---------------------------------------------------------------- whole files (bounded)

SEED = Int(0, 10 ** 6)


@P.bounded('random scores (made, or read from Humdrum or MEI) with voices, chords, tuplets, lines and words, written as MEI', seed=SEED, quick=60, thorough=3000,
           targets=['converter21.mei.meiwriter:MeiWriter.write', 'converter21.mei.meiscore:MeiScore.makeRootElement'])
def files_resolve(seed):
    """ids are unique and valid, and every reference is to an element of the file"""
    assert problems(write_mei(some_score(seed), seed % 2 == 0)) == []


@P.bounded('random pairs of numbers', seed=SEED, quick=200, thorough=20000, targets=[U + 'makeXmlIdFrom'])
def numbers_differ(seed):
    a, b = two_numbers(seed)
    assert M21Utilities.makeXmlIdFrom(a, 'note') != M21Utilities.makeXmlIdFrom(b, 'note')


@P.bounded('random measures of two or three voices with clef changes inside, written as MEI and read again', seed=SEED, quick=40, thorough=2000,
           targets=[O + 'convertM21ObjectToMeiSameAs', R + '_clefFromElement'])
def inner_clefs(seed):
    """a clef change inside a measure of several voices is the same change in each of them"""
    s, want = clef_changes(seed)
    text = write_mei(s, False)
    assert problems(text) == []
    got = set(clefs_in(read_mei(text)))
    assert got == set(want)
