"""Shared by the specification modules."""
from converter21.humdrum.humdrumtoken import HumdrumToken
from converter21.humdrum.humdrumline import HumdrumLine


WS = ''.join(chr(i) for i in range(0x3001) if chr(i).isspace())


class Rec:
    """A record with the attributes a function under contract reads from a music21 object."""
    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)


class SpineLine(HumdrumLine):
    """A line whose tokens all lie in one spine of a given type."""
    start = None

    def trackStart(self, track):
        return self.start


def in_spine(text, exinterp='**kern'):
    line = SpineLine(text)
    line.start = HumdrumToken(exinterp)
    tok = HumdrumToken(text)
    tok.ownerLine = line
    tok.track = 1
    return tok


import music21                                                      # noqa: E402
music21.environment.Environment.warn = lambda *a, **k: None         # what music21's environment prints is not part of any property
