"""Spines: how the manipulators split, join, exchange, add and end them, and how every token is linked to its neighbours."""
from pyvc.api import *
from converter21.humdrum import HumdrumFileBase, HumdrumLine, HumdrumToken

P = Prop('C10')
F = 'converter21.humdrum.humdrumfilebase:HumdrumFileBase.'
L = 'converter21.humdrum.humdrumline:HumdrumLine.'
T = 'converter21.humdrum.humdrumtoken:HumdrumToken.'
MAN = OneOf('*', '*^', '*v', '*x', '*-', '*+')
MAN4 = OneOf('*', '*^', '*v', '*x')


def targets_of(toks):
    """for each token of a line, the positions on the next line its spine goes to; width of the next line; None when malformed"""
    out, at, i = [], 0, 0
    while i < len(toks):
        k = toks[i]
        if k == '*v':
            n = 1
            while i + n < len(toks) and toks[i + n] == '*v':
                n += 1
            if n < 2:
                return None, 0
            out += [[at]] * n
            at += 1
            i += n
        elif k == '*x':
            if i + 1 >= len(toks) or toks[i + 1] != '*x':
                return None, 0
            out += [[at + 1], [at]]
            at += 2
            i += 2
        elif k == '*^':
            out.append([at, at + 1])
            at += 2
            i += 1
        elif k == '*-':
            out.append([])
            i += 1
        elif k == '*+':
            out.append([at])
            at += 2
            i += 1
        else:
            out.append([at])
            at += 1
            i += 1
    return out, at


def sources_of(toks):
    """what each field of the next line comes from: the positions on this line ('+' for a new spine)"""
    links, width = targets_of(toks)
    if links is None:
        return None
    return [[i for i in range(len(links)) if k in links[i]] for k in range(width)]


def line_of(toks):
    line = HumdrumLine('\t'.join(toks))
    line.createTokensFromLine()
    return line


def check_adjust(toks, types, infos, tracks):
    f = HumdrumFileBase()
    for _ in range(tracks):
        f.addToTrackStarts(HumdrumToken('**kern'))
    f.isQuiet = True
    line = line_of(toks)
    ok, newtypes, newinfos = f.adjustSpines(line, list(types), list(infos))
    src = sources_of(toks)
    if src is None:
        if ok:      # (a lone *v at the end of a line is found out when the lines are linked)
            assert toks[-1] == '*v' and toks[-2:] != ['*v', '*v']
        else:
            assert not f.isValid and newtypes == [] and newinfos == []
        return
    assert ok and f.isValid
    assert len(newtypes) == len(src) and len(newinfos) == len(src)
    new = tracks
    for k in range(len(src)):
        s = src[k]
        if len(s) == 0:
            new += 1
            assert newtypes[k] == '' and newinfos[k] == str(new)
        else:
            assert newtypes[k] == types[s[0]]
            if len(s) == 1:
                if toks[s[0]] == '*^':
                    first = k + 1 < len(src) and src[k + 1] == s
                    assert newinfos[k] == '(' + infos[s[0]] + (')a' if first else ')b')
                else:
                    assert newinfos[k] == infos[s[0]]


ADJ = [F + 'adjustSpines', F + 'addToTrackStarts', F + 'setParseError', F + 'isValid']
DT = Str(excl='\t\n', alpha='*kern', nonempty=True)


@P.lemma(a=MAN, b=MAN, c=MAN, ta=DT, tb=DT, tc=DT, targets=ADJ)
def three_spines(a, b, c, ta, tb, tc):
    """one line of manipulators over three spines: types and labels go where the spines go; malformed lines are refused"""
    check_adjust([a, b, c], [ta, tb, tc], ['1', '(2)a', '(2)b'], 2)


@P.lemma(a=MAN, b=MAN, ta=DT, tb=DT, labels=OneOf(('1', '2'), ('(1)a', '(1)b'), ('((1)a)a', '((1)a)b')), targets=ADJ)
def two_spines(a, b, ta, tb, labels):
    check_adjust([a, b], [ta, tb], labels, 2)


@P.lemma(a=MAN4, b=MAN4, c=MAN4, d=MAN4, targets=ADJ)
def four_spines(a, b, c, d):
    check_adjust([a, b, c, d], ['**kern', '**a', '**b', '**c'], ['1', '(2)a', '((2)b)a', '((2)b)b'], 2)


@P.lemma(label=Str(excl='', alpha='()ab12', nonempty=True), other=Str(alpha='()ab12', nonempty=True), targets=[F + 'getMergedSpineInfo'])
def label_of_a_merge(label, other):
    """merging the two halves of a split restores the label; merging others keeps both labels, the first one first"""
    assert HumdrumFileBase.getMergedSpineInfo(['(' + label + ')a', '(' + label + ')b'], 0, 1) == label
    assert HumdrumFileBase.getMergedSpineInfo(['0', '(' + label + ')a', '(' + label + ')b', '9'], 1, 1) == label
    assert HumdrumFileBase.getMergedSpineInfo([label + '1', label + other + '2', 'z'], 0, 1) == label + '1 ' + label + other + '2'


def check_stitch(prev, nxt):
    f = HumdrumFileBase()
    f.isQuiet = True
    p, n = line_of(prev), line_of(nxt)
    for i, x in enumerate((p, n)):
        x.lineIndex = i
    links, width = targets_of(prev)
    pt, nt = [p[i] for i in range(len(prev))], [n[i] for i in range(len(nxt))]
    ok = f.stitchLinesTogether(p, n)
    if links is None or width != len(nxt):
        return
    plain = '*+' not in prev
    if not plain:
        pos = 0
        for i in range(len(prev)):
            if prev[i] == '*+':
                plain = nxt[links[i][0] + 1][0:2] == '**'
                if not plain:
                    assert not ok and not f.isValid
                    return
    assert ok and f.isValid
    for i in range(len(prev)):
        want = [nt[k] for k in links[i]]
        assert pt[i].nextTokens == want
        assert pt[i].nextToken0 is (want[0] if want else None)
        assert pt[i].nextTokenCount == len(want)
    for k in range(len(nxt)):
        want = [pt[i] for i in range(len(prev)) if k in links[i]]
        assert nt[k].previousTokens == want
        assert nt[k].previousToken0 is (want[0] if want else None)
        assert nt[k].previousTokenCount == len(want)
    assert [x.text for x in n.tokens()] == list(nxt)


STITCH = [F + 'stitchLinesTogether', T + 'makeForwardLink', T + 'nextTokens', T + 'previousTokens', T + 'nextToken0', T + 'previousToken0']
TOK = OneOf('*', '**kern', '4c')


@P.lemma(a=MAN, b=MAN, c=MAN, x=TOK, y=TOK, targets=STITCH)
def links_of_three(a, b, c, x, y):
    """every token is linked to exactly the tokens its spine continues in (malformed lines excepted)"""
    width = targets_of([a, b, c])[1]
    if width == 0:
        return
    check_stitch([a, b, c], ([x, y] * 3)[:width])


@P.lemma(a=MAN4, b=MAN4, c=MAN4, d=MAN4, targets=STITCH)
def links_of_four(a, b, c, d):
    width = targets_of([a, b, c, d])[1]
    if width == 0:
        return
    check_stitch([a, b, c, d], ['*'] * width)


WORD = Str(excl='\t\n', alpha='4c.=!', nonempty=True)


@P.lemma(a=WORD, b=WORD, c=WORD, d=WORD, targets=STITCH)
def links_without_manipulators(a, b, c, d):
    """lines that manipulate nothing are linked field by field"""
    if a[0:2] == '!!' or c[0:2] == '!!':
        return
    f = HumdrumFileBase()
    p, n = line_of([a, b]), line_of([c, d])
    man = ('*^', '*v', '*x', '*-', '*+')
    if a in man or b in man:
        return
    assert f.stitchLinesTogether(p, n) and f.isValid
    for i in range(2):
        assert p[i].nextTokens == [n[i]] and n[i].previousTokens == [p[i]]


@P.lemma(a=OneOf('1', '(1)a', '((1)a)b', '2', '(12)a', '(1)a (1)b'), b=OneOf('1', '(1)b', '((1)b)a', '2', '(2)a', '(12)b'),
         c=OneOf('1', '(1)b', '3', '(2)b', '(12)b'), targets=[L + 'analyzeTracks'])
def tracks_of_a_line(a, b, c):
    """the track is the number in the label; subtracks number the fields of one track from left to right, 0 when there is one"""
    line = line_of(['x', 'y', 'z'])
    nums = []
    for i, lab in enumerate((a, b, c)):
        line[i].spineInfo = lab
        nums.append(int(''.join(ch for ch in lab.split(' ')[0] if ch in '0123456789')))
    assert line.analyzeTracks()
    for i in range(3):
        n = nums.count(nums[i])
        assert line[i].track == nums[i]
        assert line[i].subTrack == (0 if n == 1 else nums[:i + 1].count(nums[i]))


NUM = Int(1, 400)


@P.lemma(n=NUM, m=NUM, targets=[F + 'getMergedSpineInfo'])
def label_of_unsplit_merge(n, m):
    """spines that were never split keep both labels when merged, whatever their numbers"""
    a, b = str(n), str(m)
    assert HumdrumFileBase.getMergedSpineInfo([a, b], 0, 1) == a + ' ' + b
    assert HumdrumFileBase.getMergedSpineInfo(['0', a, b], 1, 1) == a + ' ' + b


@P.lemma(x=OneOf('1', '(2)a', '((3)a)b', '12'), targets=[F + 'getMergedSpineInfo'])
def label_of_three(x):
    """three or four parts of one split restore its label, in whichever order it was split"""
    m = HumdrumFileBase.getMergedSpineInfo
    assert m(['((' + x + ')a)a', '((' + x + ')a)b', '(' + x + ')b'], 0, 2) == x
    assert m(['(' + x + ')a', '((' + x + ')b)a', '((' + x + ')b)b'], 0, 2) == x
    assert m(['9', '((' + x + ')a)a', '((' + x + ')a)b', '((' + x + ')b)a', '((' + x + ')b)b'], 1, 3) == x
    assert m([x, '9'], 0, 1) == x + ' 9'


@P.lemma(a=Str(), b=Str(), c=Str(), start=OneOf(0, 1, 2), targets=[F + 'addUniqueTokens'])
def unique_tokens(a, b, c, start):
    """tokens are added once, in order, and told apart by what they are, not by what they say"""
    x, y, z = HumdrumToken(a), HumdrumToken(b), HumdrumToken(c)
    target = [x, y][:start]
    HumdrumFileBase.addUniqueTokens(target, [y, x, z, y])
    assert len(target) == 3
    want = [y, x, z] if start == 0 else [x, y, z]
    for i in range(3):
        assert target[i] is want[i]


from specs._score import Score
from converter21.humdrum.humdrumfilecontent import HumdrumFileContent


def read_score(s):
    """the file as read; the tokens the description names; None when it was refused"""
    f = HumdrumFileContent()
    f.readString(s.text())
    assert f.isValid
    assert [x.text for x in f.lines()] == [x.text for x in s.lines]
    real = {}
    for line, got in zip(s.lines, f.lines()):
        for tok, t in zip(line.toks or [], got.tokens()):
            real[id(tok)] = t
    return f, real


WHOLE = [F + 'analyzeSpines', F + 'analyzeLinks', F + 'analyzeTracks', F + 'trackStart',
         'converter21.humdrum.humdrumfilestructure:HumdrumFileStructure.analyzeStrands']


@P.bounded('random files of up to 9 spines and 3 measures: splits, merges, exchanges, added and ended spines', seed=Int(0, 10 ** 6),
           quick=250, thorough=8000, targets=WHOLE)
def whole_files(seed):
    """every token of a file knows its place, its track, its spine type and its neighbours"""
    s = Score(seed)
    f, real = read_score(s)
    starts = {}
    for i, line in enumerate(s.lines):
        if line.toks is None:
            continue
        tracks = [k.track for k in line.toks]
        for j, k in enumerate(line.toks):
            t = real[id(k)]
            assert t.text == k.text and t.fieldIndex == j and t.lineIndex == i and t.ownerLine is f[i]
            assert t.track == k.track
            assert t.subTrack == (0 if tracks.count(k.track) == 1 else tracks[:j + 1].count(k.track))
            assert t.dataType.text == k.type
            assert [id(x) for x in t.nextTokens] == [id(real[id(x)]) for x in k.next]
            assert [id(x) for x in t.previousTokens] == [id(real[id(x)]) for x in k.prev]
            if k.text[:2] == '**':
                starts[k.track] = t
    assert f.maxTrack == len(starts)
    for n, t in starts.items():
        assert f.trackStart(n) is t
    assert [id(x) for x in f.spineStartList] == [id(starts[n + 1]) for n in range(len(starts))]


@P.bounded('random files as in whole_files', seed=Int(0, 10 ** 6), quick=150, thorough=5000,
           targets=['converter21.humdrum.humdrumfilestructure:HumdrumFileStructure.resolveNullTokens'])
def whole_files_nulls(seed):
    """a null token stands for the last data of its own strand, never for that of another"""
    s = Score(seed)
    f, real = read_score(s)
    for line in s.lines:
        for k in line.toks or []:
            if line.kind != 'data' or k.text != '.':
                continue
            want = c = k
            while c.text == '.' or c.kind != 'data':
                if c.kind == 'data':
                    want = c
                if not c.prev or c.prev[0].next[0] is not c:
                    break
                c = c.prev[0]
            else:
                want = c
            assert real[id(k)].nullResolution is real[id(want)]
