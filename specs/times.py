"""Time: where in the score every line of a Humdrum file lies, and how long it lasts."""
from pyvc.api import *
from converter21.humdrum import HumdrumFileStructure, HumdrumLine, HumdrumToken, Convert
from specs._common import in_spine
from specs.rhythm import cache, dotted, POST

P = Prop('C11')
S = 'converter21.humdrum.humdrumfilestructure:HumdrumFileStructure.'
L = 'converter21.humdrum.humdrumline:HumdrumLine.'
T = 'converter21.humdrum.humdrumtoken:HumdrumToken.'
D = Real(0)          # a duration
KIND = OneOf('4c', '=1', '*M4/4', '!!note')
BAR = OneOf('4c', '=1')


def file_of(texts, types=()):
    f = HumdrumFileStructure()
    f.isQuiet = True
    for t in types:
        f.addToTrackStarts(HumdrumToken(t))
    for t in texts:
        f.appendLine(t)
    for i, line in enumerate(f.lines()):
        line.createTokensFromLine()
        line.lineIndex = i
        line.ownerFile = f
        line.rhythmAnalyzed = True
        for j, tok in enumerate(line.tokens()):
            tok.fieldIndex = j
            tok.track = j + 1
            tok.spineInfo = str(j + 1)
    return f


def exact(*xs):
    return [Fraction(x) for x in xs]


MAYBE = Real(-1)


@P.lemma(a=MAYBE, b=MAYBE, c=MAYBE, d=MAYBE, e=MAYBE, targets=[S + 'fillInMissingStartTimes', L + 'durationFromStart'])
def missing_times(a, b, c, d, e):
    """known times stay; an unknown one becomes the next known one after it, or the last known one at the end"""
    given = [a, b, c, d, e]
    f = file_of(['*'] * 5)
    for line, x in zip(f.lines(), given):
        line.durationFromStart = x
    f.fillInMissingStartTimes()
    for i in range(5):
        want = None
        for k in range(i, 5):
            if want is None and given[k] >= 0:
                want = given[k]
        for k in range(4, -1, -1):
            if want is None and given[k] >= 0:
                want = given[k]
        got = f[i].durationFromStart
        if want is None:
            assert got < 0
        else:
            assert got == want


@P.lemma(a=D, b=D, c=D, d=D, e=D, targets=[S + 'assignLineDurations', L + 'duration', S + 'scoreDuration', L + 'durationToEnd'])
def line_durations(a, b, c, d, e):
    """a line lasts until the next one; the durations add up to the length of the score"""
    a, b, c, d, e = exact(a, b, c, d, e)
    f = file_of(['4c'] * 6)
    at = 0
    for line, x in zip(f.lines(), [0, a, b, c, d, e]):
        at = at + x
        line.durationFromStart = at
    f.assignLineDurations()
    assert [line.duration for line in f.lines()] == [a, b, c, d, e, 0]
    assert f.scoreDuration == a + b + c + d + e
    assert f[2].durationToEnd == c + d + e
    assert f[0].scaledDurationToEnd(2) == 2 * (a + b + c + d + e)


@P.lemma(ka=KIND, kb=BAR, kc=KIND, kd=BAR, ke=BAR, a=D, b=D, c=D, d=D, e=D,
         targets=[S + 'analyzeMeter', L + 'durationFromBarline', L + 'durationToBarline', L + 'barlineDuration'])
def from_and_to_barlines(ka, kb, kc, kd, ke, a, b, c, d, e):
    """the time since the last barline and the time to the next one, line by line"""
    kinds, durs = [ka, kb, kc, kd, ke], exact(a, b, c, d, e)
    f = file_of(kinds)
    for line, x in zip(f.lines(), durs):
        line.duration = x
    assert f.analyzeMeter()
    for i in range(5):
        since = 0
        k = i - 1
        while k >= 0:
            since = since + durs[k] if kinds[k] != '=1' else since
            if kinds[k] == '=1':
                break
            k -= 1
        to = durs[i]
        k = i + 1
        while k < 5 and kinds[k] != '=1':
            to = to + durs[k]
            k += 1
        # (the duration of a barline itself is zero in any real file, and counts for neither measure)
        assert f[i].durationFromBarline == since
        assert f[i].durationToBarline == to
        assert f[i].barlineDuration == (to if kinds[i] == '=1' else since + to)


K3 = ['**kern']
MID = OneOf('.', '4c', '=2', '*clefG2', '!!x')


@P.lemma(ka=MID, kb=MID, kc=MID, a=D, b=D, c=D, d=D, targets=[S + 'analyzeNullLineRhythms', L + 'isAllRhythmicNull'])
def null_lines(ka, kb, kc, a, b, c, d):
    """null data lines between two timed lines of a measure share the time between them evenly; others get no time yet"""
    kinds = ['4c', ka, kb, kc, '4e']
    f = file_of(kinds, K3)
    known, at = [], 0
    for k, x in zip(kinds, exact(0, a, b, c, d)):
        at = at + x
        known.append(at if k[0] == '4' else None)
    for i in range(5):
        f[i].durationFromStart = -1 if known[i] is None else known[i]
    assert f.analyzeNullLineRhythms() and f.isValid
    for i in range(5):
        got = f[i].durationFromStart
        if known[i] is not None:
            assert got == known[i]
        elif kinds[i] == '.':
            before, after, n, j = None, None, 1, 0
            for k in range(i):
                if kinds[k] == '=2':
                    before, n, j = None, 1, 0
                elif known[k] is not None:
                    before, n, j = known[k], 1, 0
                elif kinds[k] == '.':
                    j += 1
                    n += 1
            for k in range(i + 1, 5):
                if kinds[k] == '=2':
                    break
                if known[k] is not None:
                    after = known[k]
                    break
                if kinds[k] == '.':
                    n += 1
            n += 1
            if before is None or after is None:
                assert got == -1
            else:
                assert got == before + (after - before) * (j + 1) / n
        else:
            assert got == -1


def linked(texts, durs):
    """a file of linked lines; durs: the duration of each token that has one, in reading order"""
    f = file_of(texts)
    for tok in f[0].tokens():
        f.addToTrackStarts(tok)
    lines = list(f.lines())
    for p, n in zip(lines, lines[1:]):
        assert f.stitchLinesTogether(p, n)
    k = 0
    for line in lines:
        for tok in line.tokens():
            if k < len(durs) and tok.text[0] == '4':
                tok.duration = durs[k]
                k += 1
            else:
                tok.duration = -1
        line.durationFromStart = -1
    return f


PREP = [S + 'assignDurationsToTrack', S + 'prepareDurations', S + 'setLineDurationFromStart']


@P.lemma(a=D, b=D, c=D, d=D, targets=PREP)
def two_parts(a, b, c, d):
    """two parts that meet on a line agree about its time, or the file is refused"""
    a, b, c, d = exact(a, b, c, d)
    f = linked(['**kern\t**kern', '4c\t4d', '4e\t4f', '*-\t*-'], [a, b, c, d])
    ok = f.assignDurationsToTrack(f[0][0], 0)
    assert ok
    assert f[1].durationFromStart == 0 and f[2].durationFromStart == a and f[3].durationFromStart == a + c
    ok = f.assignDurationsToTrack(f[0][1], 0)
    if a == b:
        assert ok and f.isValid
        assert f[1].durationFromStart == 0 and f[2].durationFromStart == a
        assert f[3].durationFromStart == a + max(c, d)
    else:
        assert not ok and not f.isValid
        assert f[2].durationFromStart == a


@P.lemma(a=D, b=D, c=D, d=D, e=D, start=D, targets=PREP)
def interleaved(a, b, c, d, e, start):
    """each note starts when the one before it in its own spine ends; lines without rhythm are left open"""
    a, b, c, d, e, start = exact(a, b, c, d, e, start)
    f = linked(['**kern\t**kern', '4c\t4d', '4e\t.', '.\t4f', '=1\t=1', '4g\t.', '*-\t*-'], [a, b, c, d, e])
    assert f.assignDurationsToTrack(f[0][0], start) and f.assignDurationsToTrack(f[0][1], start)
    assert [f[i].durationFromStart for i in range(1, 6)] == [start, start + a, start + b, -1, start + a + c]
    assert f[6].durationFromStart == start + max(a + c + e, b + d)


@P.lemma(a=D, b=D, c=D, d=D, e=D, g=D, targets=PREP)
def after_a_split(a, b, c, d, e, g):
    """both halves of a split start where it happened, and the music goes on where the first half ended"""
    a, b, c, d, e, g = exact(a, b, c, d, e, g)
    f = linked(['**kern', '4c', '*^', '4d\t4e', '4f\t.', '.\t4g', '*v\t*v', '4a', '*-'], [a, b, c, d, e, g])
    assert f.assignDurationsToTrack(f[0][0], 0)
    assert f.isValid
    assert [f[i].durationFromStart for i in (1, 3, 4, 5, 7)] == [0, a, a + b, a + c, a + b + d]
    assert f[8].durationFromStart == a + b + d + g


@P.lemma(a=D, b=D, c=D, d=D, e=D, targets=PREP)
def halves_agree(a, b, c, d, e):
    """the halves of a split that meet on a line agree about its time, or the file is refused"""
    a, b, c, d, e = exact(a, b, c, d, e)
    f = linked(['**kern', '4c', '*^', '4d\t4e', '4f\t4g', '*-\t*-'], [a, b, c, d, e])
    ok = f.assignDurationsToTrack(f[0][0], 0)
    assert ok == (b == c) and f.isValid == ok
    assert f[4].durationFromStart == a + b


@P.lemma(a=D, b=D, c=D, start=OneOf(True, False), targets=[S + 'analyzeRhythmOfFloatingSpine'])
def floating(a, b, c, start):
    """a spine that begins later is placed by the first line whose time is known"""
    a, b, c = exact(a, b, c)
    f = linked(['**kern', '4c', '4d', '4e', '*-'], [a, b, c])
    if start:
        f[1].durationFromStart = 7
    else:
        f[2].durationFromStart = 7 + a
    assert f.analyzeRhythmOfFloatingSpine(f[0][0])
    assert [f[i].durationFromStart for i in (1, 2, 3)] == [7, 7 + a, 7 + a + b]


@P.lemma(a=D, b=D, c=D, d=D, k=OneOf('la', '.'), kk=OneOf('le', '.'), targets=[S + 'assignDurationsToNonRhythmicTrack'])
def syllables(a, b, c, d, k, kk):
    """a token of a spine without rhythm lasts until the next one of its spine, or the end"""
    f = linked(['**text', 'x', k, '*', kk, '*-'], [])
    at = 0
    times = []
    for i, x in enumerate(exact(0, 0, a, b, c, d)):
        at = at + x
        f[i].durationFromStart = at
        times.append(at)
    assert f.assignDurationsToNonRhythmicTrack(f[5][0], f[5][0])
    end = times[5]
    for i in (4, 2, 1):
        if f[i][0].text == '.':
            assert f[i][0].duration == -1
        else:
            assert f[i][0].duration == end - times[i]
            end = times[i]


TYPES = OneOf('**kern', '**recip', '**text', '**dynam')


@P.lemma(text=Str(excl='\t\n', alpha='4c.q*!=r8'), lead=OneOf('*', '!', '='), spine=TYPES, targets=[T + 'analyzeDuration', T + 'duration'])
def no_durations(text, lead, spine):
    """interpretations, comments, barlines and nulls have no duration"""
    assert in_spine(lead + text, spine).duration == -1
    assert in_spine('.', spine).duration == -1


def exp_note(tok, sc, n, dots, post, spine):
    return dotted(Fraction(1, n), dots) * Fraction(sc)


@P.lemma(n=Int(1), dots=OneOf(0, 1, 2), post=POST, spine=TYPES, targets=[T + 'analyzeDuration', T + 'duration'], statics=cache(exp_note))
def token_durations(n, dots, post, spine):
    """data of rhythmic spines lasts as long as its rhythm says; other data has no duration of its own"""
    tok = in_spine(str(n) + '.' * dots + post, spine)
    assert tok.duration == (dotted(Fraction(4, n), dots) if spine in ('**kern', '**recip') else -1)


RECIP = {'4': Fraction(1), '8.': Fraction(3, 4), '12': Fraction(1, 3), '1%5': Fraction(20), '.': Fraction(0), '16q': Fraction(0)}


def exp_recip(tok, sc, *args):
    return RECIP[tok] * Fraction(sc) / 4


RT = OneOf('4', '8.', '12', '1%5', '.', '16q')


@P.lemma(a=RT, b=RT, targets=[S + 'assignRhythmFromRecip'], statics=cache(exp_recip))
def recip_spine(a, b):
    """a **recip spine times the lines of the whole file"""
    f = linked(['**recip', a, '=1', b, '!!note', '*-'], [])
    assert f.assignRhythmFromRecip(f[0][0])
    at = 0
    for i in range(6):
        line = f[i]
        assert line.durationFromStart == at
        own = RECIP[line.text] if i in (1, 3) else 0
        assert line.duration == own
        at = at + own


@P.lemma(d=Real(0), size=Real(Fraction(1, 100)), scale=Real(Fraction(1, 100)), targets=[L + 'beat', L + 'scaledDurationFromBarline'],
         statics=cache(lambda tok, sc, *args: (1 if tok == '4' else Fraction(1, 2)) * Fraction(sc) / 4))
def beats(d, size, scale):
    """beats count from one"""
    d, size, scale = exact(d, size, scale)
    f = file_of(['4c'])
    line = f[0]
    line.durationFromBarline = d
    line.durationToBarline = 2 * d
    line.durationFromStart = 5 + d
    assert line.beat() == d + 1 and line.beat('4') == d + 1 and line.beat('8') == 2 * d + 1
    assert line.beat(size) == d / size + 1
    assert line.beat(0) == 0
    tok = line[0]
    assert tok.durationFromBarline == d and tok.getScaledDurationFromBarline(scale) == d * scale
    assert tok.durationToBarline == 2 * d and tok.getScaledDurationToBarline(scale) == 2 * d * scale
    assert tok.durationFromStart == 5 + d and tok.getScaledDurationFromStart(scale) == (5 + d) * scale
    assert tok.barlineDuration == 3 * d and tok.getScaledBarlineDuration(scale) == 3 * d * scale


LN = OneOf(1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16, 24, 48, 64)


@P.lemma(a=LN, b=LN, c=LN, targets=['converter21.humdrum.convert:Convert.getLcm'])
def common_multiple(a, b, c):
    n = Convert.getLcm([a, b, c])
    assert n % a == 0 and n % b == 0 and n % c == 0
    assert n <= a * b * c
    assert Convert.getLcm([a]) == a and Convert.getLcm([]) == 1


from specs._score import Score
from specs.spines import read_score


@P.bounded('random files of up to 9 spines and 3 measures, with tuplets, grace notes, splits and spines that begin or end midway',
           seed=Int(0, 10 ** 6), quick=250, thorough=8000, targets=[S + 'analyzeRhythm', S + 'analyzeDurationsOfNonRhythmicSpines'])
def whole_files(seed):
    """every line of a file is where its music puts it, to the barlines and to the end"""
    s = Score(seed)
    f, real = read_score(s)
    denominators = set()
    for line, got in zip(s.lines, f.lines()):
        assert got.durationFromStart == line.start
        assert got.duration == line.dur
        assert got.durationFromBarline == line.frombar
        assert got.durationToBarline == line.tobar
        denominators.add(line.dur.denominator)
        for k in line.toks or []:
            if k.dur is not None:
                assert real[id(k)].duration == k.dur
    assert f.scoreDuration == s.time
    n = f.tpq()
    assert all(n % d == 0 for d in denominators)
    where = {id(k): line.start for line in s.lines for k in line.toks or []}
    tracks = {}
    for line in s.lines:
        for k in line.toks or []:
            if len(k.next) > 1:
                tracks[k.track] = True
    for line in s.lines:
        for k in line.toks or []:
            if line.kind == 'data' and k.type != '**kern' and k.text != '.' and k.track not in tracks:
                c = k.next[0]
                while c.next and (c.kind != 'data' or c.text == '.'):
                    c = c.next[0]
                assert real[id(k)].duration == where[id(c)] - line.start
