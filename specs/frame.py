"""Writing a score leaves it as it was, and says the same again."""
from pyvc.api import *
from converter21.shared import M21Utilities
from converter21.humdrum import HumdrumWriter
from converter21.mei import MeiWriter
from specs._frame import *
from pyvc.values import VDict
from specs._refs import some_score
from specs._e2e import write_krn, write_mei

P = Prop('C21')
W = 'converter21.humdrum.humdrumwriter:HumdrumWriter.'
M = 'converter21.mei.meiwriter:MeiWriter.'
MS = 'converter21.mei.meiscore:MeiScore.'
HUMDRUM = [W + 'write', W + '_stitchParts']
MEI = [M + 'write', MS + 'annotateScore', MS + 'deannotateScore', MS + 'makeRootElement']


def fresh_cache(it, vals):
    """the cache of durations as it is at the start (that its state does not matter is C01's)"""
    it.opts['static_maps'] = lambda it2, cls, name, v: VDict() if name == '_knownRecipDurationCache' else None


@native
def humdrum_writer(score, notate):
    w = HumdrumWriter(score)
    w.makeNotation = notate
    return w


@native
def state(w):
    return list(vars(w).items())


class Writing(HumdrumWriter):
    """the writer as its own __init__ leaves it"""
    def __init__(self, real):
        for k, v in state(real):
            if isinstance(v, dict):
                v = dict(v)
            elif isinstance(v, list):
                v = list(v)
            elif isinstance(v, set):
                v = set(v)
            setattr(self, k, v)


@native
def mei_writer(score, notate):
    w = MeiWriter(score)
    w.makeNotation = notate
    return w


def humdrum_stays(what, parts, voices):
    score = furnished(what, parts, voices)
    before = portrait(score)
    f, g = out_file(), out_file()
    assert Writing(humdrum_writer(score, False)).write(f)
    assert portrait(score) == before
    assert Writing(humdrum_writer(score, False)).write(g)
    assert text_of(g) == text_of(f)


@P.lemma(what=OneOf(*WITH), statics=fresh_cache, targets=HUMDRUM)
def humdrum_leaves_voices(what):
    """writing a part with two voices as Humdrum changes nothing in the score, and writing it again gives the same text"""
    humdrum_stays(what, 1, 2)


@P.lemma(what=OneOf(*WITH), statics=fresh_cache, targets=HUMDRUM)
def humdrum_leaves_parts(what):
    """writing two parts as Humdrum changes nothing in the score, and writing it again gives the same text"""
    humdrum_stays(what, 2, 0)


@P.lemma(what=OneOf(*WITH), shape=OneOf((1, 2), (2, 0)), targets=MEI)
def mei_leaves(what, shape):
    """writing MEI changes nothing in the score, and writing it again gives the same text"""
    score = furnished(what, *shape)
    before = portrait(score)
    f, g = out_file(), out_file()
    assert mei_writer(score, False).write(f)
    assert portrait(score) == before
    assert mei_writer(score, False).write(g)
    assert text_of(g) == text_of(f)


# ---------------------------------------------------------------- random scores (bounded)

SEED = Int(0, 10 ** 6)


@P.bounded('random scores (made, or read from Humdrum or MEI) with voices, chords, tuplets, lines and words, written as Humdrum and as MEI', seed=SEED, quick=40,
           thorough=2000, targets=[W + 'write', M + 'write'])
def scores_stay(seed):
    """writing changes nothing in the score, and writing it again gives the same text"""
    score = some_score(seed)
    before = portrait(score)
    notate = seed % 2 == 0
    a, b = settled(write_mei(score, notate)), settled(write_krn(score, notate))
    assert portrait(score) == before
    assert settled(write_mei(score, notate)) == a
    assert settled(write_krn(score, notate)) == b
