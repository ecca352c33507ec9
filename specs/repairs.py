"""Malformed Humdrum: refused by default, repaired (and counted) when that is asked for, never taken for something else."""
from pyvc.api import *
from converter21.humdrum import HumdrumFileBase, HumdrumFileStructure, HumdrumLine, HumdrumToken
from specs._score import Score
from specs._broken import fits, corrupt, spines_after, typed, in_order, quiet_read, score_of

P = Prop('C18')
B = 'converter21.humdrum.humdrumfilebase:HumdrumFileBase.'
S = 'converter21.humdrum.humdrumfilestructure:HumdrumFileStructure.'
READ = [B + 'readString', B + 'analyzeBaseFromLines', B + 'analyzeSpines', B + 'analyzeLinks', B + 'stitchLinesTogether', B + 'analyzeLines',
        B + 'analyzeTokens', B + 'setParseError', B + 'isValid']
MEND = READ + [B + 'fixLinesWithMismatchedTokens', B + 'insertLine']
NULL = {'4c': '.', '*clefG2': '*', '!note': '!', '=1': '=1'}
LINES = OneOf(*NULL)
WORD = Str(excl='\t\n', nonempty=True)


def base_file(lines, accept):
    f = HumdrumFileBase(acceptSyntaxErrors=accept)
    f.isQuiet = True
    ok = f.readString('\n'.join(lines))
    assert ok == f.isValid
    return f


def check_both(lines, what=None):
    """the two ways of reading; strict: refused exactly when the lines do not fit; otherwise: fitting lines, and a count of what was done"""
    bad = fits(lines)
    f = base_file(lines, False)
    assert f.isValid == (bad is None)
    assert f.numSyntaxErrorsFixed == 0
    if bad is None:
        assert [x.text for x in f.lines()] == lines
    elif what is not None:
        assert what in f.parseError
    g = base_file(lines, True)
    if g.isValid:
        assert fits([x.text for x in g.lines()]) is None
    assert (g.numSyntaxErrorsFixed == 0) == ([x.text for x in g.lines()] == lines)
    for h in (f, g):
        if h.isValid:
            for i, line in enumerate(h.lines()):
                assert line.lineIndex == i and line.ownerFile is h
                for j, t in enumerate(line.tokens()):
                    assert t.fieldIndex == j and t.lineIndex == i and (not line.hasSpines or t.track > 0)
    if bad is None:
        assert g.isValid and g.numSyntaxErrorsFixed == 0
    return f, g


HEADS = OneOf(('**text',), ('**kern', '**text'), ('**text', '**kern'), ('**kern', '**kern', '**dynam'))


@P.lemma(head=HEADS, kind_=LINES, n=OneOf(1, 2, 3, 5), before=OneOf(0, 1), after=OneOf(0, 2), targets=MEND)
def field_counts(head, kind_, n, before, after):
    """a line with too few or too many fields is refused, with its number; repaired, it keeps the fields it has"""
    k = len(head)
    lines = ['\t'.join(head)] + ['\t'.join(['*'] * k)] * before + ['\t'.join([kind_] * n)]
    end = ['\t'.join(['.'] * k)] * after + ['\t'.join(['*-'] * k)]
    f, g = check_both(lines + end, 'line ' + str(before + 2))
    assert f.isValid == (n == k)
    assert g.isValid
    texts = [x.text for x in g.lines()]
    mended = texts[len(texts) - len(end) - 1]
    if n <= k:
        assert texts == lines[:-1] + ['\t'.join([kind_] * n + [NULL[kind_]] * (k - n))] + end
        assert g.numSyntaxErrorsFixed == k - n
    elif n - k <= head.count('**kern'):
        assert mended == lines[-1]                     # nothing is lost
    else:
        assert mended == '\t'.join([kind_] * k)        # there is no spine for the others
        assert g.numSyntaxErrorsFixed == n - k


@P.lemma(a=WORD, b=WORD, c=WORD, targets=MEND)
def any_words(a, b, c):
    """whatever the fields say, too few or too many of them are refused, and the others keep their text when repaired"""
    if a[0] not in '*!=' and b[0] not in '*!=' and c[0] not in '*!=' and c != '<eos>':
        f, g = check_both(['**text\t**dynam', a + '\t' + b, c, '*-\t*-'], 'line 3')
        assert [x.text for x in g.lines()][1:3] == [a + '\t' + b, c + '\t.']
        f, g = check_both(['**text\t**dynam', a + '\t' + b + '\t' + c, '.\t.', '*-\t*-'], 'line 2')
        assert [x.text for x in g.lines()][1:3] == [a + '\t' + b, '.\t.']


@P.lemma(a=WORD, b=WORD, c=WORD, targets=MEND)
def any_right_words(a, b, c):
    """with the right number of fields, every field is read as it stands, in both ways of reading"""
    if a[0] not in '*!=' and b[0] not in '*!=' and c[0] not in '*!=':
        f, g = check_both(['**text\t**dynam', a + '\t' + b, '.\t' + c, '*-\t*-'])
        assert f.isValid
        assert [x.text for x in f[1].tokens()] == [a, b] and [x.text for x in f[2].tokens()] == ['.', c]


SPINY = OneOf('4c', '=1', '*', '*M4/4', '!note', '.')


@P.lemma(first=OneOf(None, '!!note', '!!!OTL: a title', ''), early=OneOf(None, '4c', '=1', '*', '*M4/4', '!note', '.', '*^'), twice=OneOf(False, True), targets=MEND)
def before_the_spines(first, early, twice):
    """anything but comments for the whole file is refused before the spines have types; repaired, it is kept as a comment"""
    lines = [x for x in [first] + [early] * (2 if twice else 1) if x is not None]
    lines = lines + ['**kern\t**text', '4d\tla', '*-\t*-']
    f, g = check_both(lines, early)
    assert f.isValid == (early is None)
    assert g.isValid and g.lineCount == len(lines)
    for old, new in zip(lines, g.lines()):
        if old == early:
            assert new.text.startswith('!!') and not new.text.startswith('!!!') and new.text.endswith(early) and not new.hasSpines
        else:
            assert new.text == old
    assert g.numSyntaxErrorsFixed == lines.count(early)


@P.lemma(only=OneOf('!!note', '!!!COM: X', '4c', '*M4/4', '=1', '!x', '*-', ''), more=OneOf(None, '4d', '!!end', '=2'), targets=MEND)
def no_spines_at_all(only, more):
    """a text without an exclusive interpretation is no Humdrum file, in either way of reading"""
    lines = [only] + ([more] if more is not None else [])
    for accept in (False, True):
        f = base_file(lines, accept)
        assert not f.isValid and f.parseError != ''


MAN = OneOf('*', '*^', '*v', '*x', '*+', '*-')


@P.lemma(head=OneOf(('**kern', '**text', '**kern')), a=MAN, b=MAN, c=MAN, n=OneOf(1, 2, 3, 4), targets=READ + [B + 'adjustSpines'])
def after_manipulators(head, a, b, c, n):
    """the line after a line of spine manipulators has to have the fields they ask for"""
    lines = ['\t'.join(head), '\t'.join([a, b, c]), '\t'.join(['.'] * n)]
    bad = fits(lines)
    lone = spines_after([a, b, c]) is None
    f = base_file(lines, False)
    assert f.isValid == (bad is None)
    if not f.isValid:
        assert f.parseError != ''
    if n == 1:
        f = base_file(lines[:2], False)          # also on the last line
        assert f.isValid == (not lone)


KINDS = OneOf('4c', '.', '*', '*M4/4', '!', '!note', '=1', '=')


@P.lemma(a=KINDS, b=KINDS, c=KINDS, targets=MEND)
def mixed_kinds(a, b, c):
    """fields of another kind than their line are replaced, and each is counted; the other fields stay"""
    def kind_of(x):
        return x[0] if x[0] in '*!=' else 'data'
    lines = ['**text\t**text\t**text', '\t'.join([a, b, c]), '*-\t*-\t*-']
    g = base_file(lines, True)
    assert g.isValid
    got = [x.text for x in g[1].tokens()]
    assert g[1].text == '\t'.join(got) and len(got) == 3
    fixed = 0
    bar = a if a[0] == '=' else '='
    for old, new in zip([a, b, c], got):
        if kind_of(old) == kind_of(a):
            assert new == old
        else:
            fixed += 1
            assert new == {'*': '*', '!': '!', '=': bar, 'data': '.'}[kind_of(a)]
    assert g.numSyntaxErrorsFixed == fixed


@P.lemma(known=Real(-1), new=Real(0), accept=OneOf(False, True), text=OneOf('4c', '.', '=1', '*-', '*M4/4'), dur=OneOf(-1, 0, 1), targets=[S + 'setLineDurationFromStart'])
def times_disagree(known, new, accept, text, dur):
    """two spines that disagree about the time of a line: refused; repaired, the later time is taken, and it is counted"""
    if known == -1 or known >= 0:
        f = HumdrumFileStructure(acceptSyntaxErrors=accept)
        f.isQuiet = True
        f.appendLine(text)
        line = f[0]
        line.createTokensFromLine()
        line.lineIndex = 0
        tok = line[0]
        tok.duration = dur
        line.durationFromStart = known
        ok = f.setLineDurationFromStart(tok, new)
        asked = text == '*-' or dur >= 0
        clash = asked and known != -1 and known != new
        assert ok == f.isValid == (not clash or text == '*-' or accept)
        assert f.numSyntaxErrorsFixed == (1 if clash and text != '*-' and accept else 0)
        if not asked:
            assert line.durationFromStart == known
        elif known == -1:
            assert line.durationFromStart == new
        elif ok:
            assert line.durationFromStart == (known if known > new else new)
        else:
            assert line.durationFromStart == known


SEED = Int(0, 10 ** 6)


@P.bounded('random files (as in C10) with one line broken: fields or lines removed or added, manipulators put in', seed=SEED, quick=300, thorough=10000,
           targets=READ + [S + 'analyzeStructure'])
def broken_files(seed):
    """a file whose lines do not fit its spines is refused with an error; others are read as they are, or refused for their rhythm"""
    lines = corrupt(seed, Score(seed).text().split('\n'))
    f = quiet_read(lines, False)
    if fits(lines) is not None:
        assert f is None or (not f.isValid and f.parseError != '')
    elif f is not None and f.isValid:
        assert [x.text for x in f.lines()] == lines[:-1]
    assert f is None or f.numSyntaxErrorsFixed == 0


@P.bounded('the same files', seed=SEED, quick=300, thorough=10000, targets=MEND + [S + 'analyzeStructure'])
def mended_files(seed):
    """repaired files fit, are counted as repaired exactly when they were not accepted as they are, and have exact links and places"""
    lines = corrupt(seed, Score(seed).text().split('\n'))
    strict = quiet_read(lines, False)
    f = quiet_read(lines, True)
    if f is None or not f.isValid:
        assert strict is None or not strict.isValid
        return
    got = [x.text for x in f.lines()]
    if not typed(lines) or fits(lines) == 'partner':
        return          # how spines without a type and a '*v' without a partner are repaired is not claimed
    assert fits(got) is None
    if strict is None or not strict.isValid:
        assert f.numSyntaxErrorsFixed > 0
    elif got == lines[:-1] and in_order([x.durationFromStart for x in strict.lines()]):
        assert f.numSyntaxErrorsFixed == 0
    for i, line in enumerate(f.lines()):
        assert line.lineIndex == i and line.ownerFile is f
        if line.hasSpines:
            assert line.text == '\t'.join([t.text for t in line.tokens()])
            for j, t in enumerate(line.tokens()):
                assert t.fieldIndex == j and t.ownerLine is line
                for x in t.nextTokens:
                    assert any(y is t for y in x.previousTokens) and x.lineIndex > i


@P.bounded('random well-formed files', seed=SEED, quick=150, thorough=5000, targets=MEND + [S + 'analyzeStructure'])
def nothing_to_mend(seed):
    """a well-formed file is read the same in both ways, and nothing is counted"""
    s = Score(seed)
    f, g = quiet_read(s.text().split('\n'), False), quiet_read(s.text().split('\n'), True)
    assert f.isValid and g.isValid and g.numSyntaxErrorsFixed == 0
    assert [x.text for x in f.lines()] == [x.text for x in g.lines()] == [x.text for x in s.lines]
    assert [x.durationFromStart for x in f.lines()] == [x.durationFromStart for x in g.lines()]


@P.bounded('the same broken files through the converter', seed=SEED, quick=60, thorough=3000,
           targets=['converter21.HumdrumConverter:HumdrumConverter.parseData', 'converter21.humdrum.humdrumfile:HumdrumFile.createMusic21Stream'])
def broken_scores(seed):
    """a refused file gives an empty score with the reason; a repaired one a score that says how many repairs it took"""
    lines = corrupt(seed, Score(seed).text().split('\n'))
    for accept in (False, True):
        f = quiet_read(lines, accept)
        score = score_of(lines, accept)
        if score is None:
            assert not accept and (f is None or f.isValid)
        elif f is None or not f.isValid:
            assert len(score.elements) == 0 and score.c21_parse_err != ''
        elif accept and score.c21_parse_err != '':
            assert len(score.elements) == 0          # could not be repaired after all
        elif accept:
            assert getattr(score, 'c21_syntax_errors_fixed', 0) >= f.numSyntaxErrorsFixed
        else:
            assert score.c21_parse_err == '' and not hasattr(score, 'c21_syntax_errors_fixed')
