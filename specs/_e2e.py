"""Whole conversions through the real code, for the bounded stand-ins."""
import contextlib
import io
import random
from fractions import Fraction
import music21 as m21
from converter21.humdrum import HumdrumFile, HumdrumWriter
from converter21.mei import MeiReader, MeiWriter


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        yield


def read_krn(text):
    with quiet():
        hf = HumdrumFile()
        hf.readString(text)
        return hf.createMusic21Stream()


def write_krn(score, notation=True):
    with quiet():
        w = HumdrumWriter(score)
        w.makeNotation = notation
        f = io.StringIO()
        w.write(f)
        return f.getvalue()


def write_mei(score, notation=True):
    with quiet():
        w = MeiWriter(score)
        w.makeNotation = notation
        f = io.StringIO()
        w.write(f)
        return f.getvalue()


def read_mei(text):
    with quiet():
        return MeiReader(text).run()


def notes(score, hidden=False):
    """what sounds when: (offset, duration, pitches or 'r'), in time order, ties and beams aside"""
    out = []
    for part in score.parts:
        for n in part.recurse().notesAndRests:
            if isinstance(n, (m21.harmony.Harmony,)):
                continue
            off = Fraction(n.getOffsetInHierarchy(part))
            dur = Fraction(n.duration.quarterLength)
            if n.isRest:
                if hidden or not (n.hasStyleInformation and n.style.hideObjectOnPrint):
                    out.append((off, dur, 'r'))
            else:
                ps = sorted(p.nameWithOctave for p in n.pitches)
                out.append((off, dur, ' '.join(ps)))
    return sorted(out)
