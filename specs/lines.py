"""Humdrum lines: what kind of line a text is, reference records, tokens of a line and back."""
from pyvc.api import *
from specs._common import WS
from converter21.humdrum import HumdrumFileBase, HumdrumLine, HumdrumToken

P = Prop('C08')
L = 'converter21.humdrum.humdrumline:HumdrumLine.'
KEY = Str(excl=':!' + WS, alpha='OTL1@', nonempty=True)
WORD = Str(excl=WS, alpha='ab:!=', nonempty=True)
BLANK = OneOf('', ' ', '\t ')


@P.lemma(text=Str(alpha='!*=.4c:\t', words=['', '!!', '!!!OTL: x', '!!!!KEY: y', '*-', '**kern', '=1', '!LO:x']), targets=[
    L + 'isComment', L + 'isLocalComment', L + 'isGlobalComment', L + 'isUniversalComment', L + 'isInterpretation', L + 'isEmpty',
    L + 'isGlobal', L + 'hasSpines', L + 'isSignifier'])
def kinds_by_text(text):
    """the leading characters alone decide the kind of a line"""
    line = HumdrumLine(text)
    if not text.endswith('\n'):
        assert line.text == text and str(line) == text
        bang, bang2 = text[0:1] == '!', text[0:2] == '!!'
        assert line.isComment == bang
        assert line.isGlobalComment == bang2
        assert line.isLocalComment == (bang and not bang2)
        assert line.isUniversalComment == (text[0:4] == '!!!!')
        assert line.isInterpretation == (text[0:1] == '*')
        assert line.isEmpty == (text == '')
        assert line.isGlobal == (bang2 or text == '')
        assert line.hasSpines == (not (bang2 or text == ''))
        assert line.isSignifier == (text[0:8] == '!!!RDF**' and len(text) > 8)


@P.lemma(text=Str(alpha='ab', excl='\n'), nl=Bool(), targets=[L + '__init__', L + 'text'])
def one_line_feed(text, nl):
    line = HumdrumLine(text + ('\n' if nl else ''))
    assert line.text == text
    line.text = 'x'
    assert line.text == 'x'


@P.lemma(a=Str(excl='\t\n', alpha='!*=.4c', nonempty=True, words=['.', '=1', '*', '*-', '**kern', '4c', '!x']),
         b=Str(excl='\t\n', alpha='!*=.4c', nonempty=True, words=['.', '=1', '*', '*-', '**kern', '4c', '!x']), targets=[
    L + 'isData', L + 'isBarline', L + 'isAllNull', L + 'isExclusiveInterpretation', L + 'isTerminateInterpretation'])
def kinds_by_tokens(a, b):
    """a line is exactly one of comment, interpretation, barline or data"""
    if a[0:2] != '!!':
        line = HumdrumLine(a + '\t' + b)
        assert line.createTokensFromLine() == 2
        assert line.isBarline == (a[0:1] == '=')
        kinds = [line.isComment, line.isInterpretation, line.isBarline, line.isData]
        assert sum(1 if k else 0 for k in kinds) == 1
        assert line.isExclusiveInterpretation == (a[0:2] == '**' or b[0:2] == '**')
        assert line.isTerminateInterpretation == (a == '*-' and b == '*-')
        null = ('.', '*', '!')
        assert line.isAllNull == (a in null and b in null)


@P.lemma(bangs=OneOf('!!!', '!!!!'), key=KEY, mid=BLANK, a=WORD, gap=OneOf(' ', ': '), b=WORD, end=OneOf('', ' '), targets=[
    L + 'isReference', L + 'isGlobalReference', L + 'isUniversalReference', L + 'referenceKey', L + 'referenceValue',
    L + 'globalReferenceKey', L + 'globalReferenceValue', L + 'universalReferenceKey', L + 'universalReferenceValue',
    'converter21.humdrum.humdrumline:_getKeyAndValue'])
def reference_record(bangs, key, mid, a, gap, b, end):
    """!!!KEY: VALUE is a reference record with that key and value (later colons belong to the value)"""
    value = a + gap + b
    line = HumdrumLine(bangs + key + ':' + mid + value + end)
    glob = bangs == '!!!'
    assert line.isReference
    assert line.isGlobalReference == glob and line.isUniversalReference == (not glob)
    assert line.referenceKey == key and line.referenceValue == value
    assert line.globalReferenceKey == (key if glob else '')
    assert line.globalReferenceValue == (value if glob else '')
    assert line.universalReferenceKey == ('' if glob else key)
    assert line.universalReferenceValue == ('' if glob else value)


@P.lemma(start=OneOf('!!!a b:', '!!! OTL: ', '!!!OTL\t: ', '!!!!a b: ', '!!!!!', '!!!!!K: ', '!!\t', '!! K: ', '!K: ', '*', '!!! see also: ', '!!!! :'),
         rest=Str(excl='\n', alpha='ab: '), targets=[L + 'isReference', L + 'referenceKey', L + 'referenceValue'])
def not_a_reference_record(start, rest):
    """anything else, including a comment with blanks before its first colon, is not a reference record"""
    line = HumdrumLine(start + rest)
    assert not line.isReference and not line.isGlobalReference and not line.isUniversalReference
    assert line.referenceKey == '' and line.referenceValue == ''


@P.lemma(key=KEY, mid=BLANK, targets=[L + 'referenceValue'])
def empty_reference(key, mid):
    line = HumdrumLine('!!!' + key + ':' + mid)
    assert line.isReference and line.referenceKey == key and line.referenceValue == ''


TEXT = Str(excl='\t\n', alpha='4c.*!', nonempty=True)


@P.lemma(a=TEXT, n1=OneOf(1, 2, 3), b=TEXT, n2=OneOf(1, 2), c=TEXT, n3=OneOf(0, 1), targets=[
    L + 'createTokensFromLine', L + 'createLineFromTokens', L + '__getitem__', L + 'tokens', L + 'tokenCount'])
def tokens_of_a_line(a, n1, b, n2, c, n3):
    """tokens are the texts between tabs; writing them back gives the very same line (repeated tabs kept)"""
    text = a + '\t' * n1 + b + '\t' * n2 + c + '\t' * n3
    if text[0:2] != '!!':
        line = HumdrumLine(text)
        assert line.createTokensFromLine() == 3
        assert line.tokenCount == 3
        assert [t.text for t in line.tokens()] == [a, b, c]
        assert line[0].text == a and line[2].text == c and line[-1].text == c and line[-3].text == a
        assert line[3] is None and line[-4] is None
        for t in line.tokens():
            assert t.ownerLine is line
        line.createLineFromTokens()
        assert line.text == text


@P.lemma(text=Str(excl='\n', alpha='!a\t:', words=['', 'x\ty']), targets=[L + 'createTokensFromLine'])
def global_lines_are_one_token(text):
    line = HumdrumLine('!!' + text)
    assert line.createTokensFromLine() == 1
    assert line[0].text == '!!' + text and line.tokenCount == 1
    line.createLineFromTokens()
    assert line.text == '!!' + text
    line.text = ''
    assert line.createTokensFromLine() == 1 and line[0].text == ''
    line.createLineFromTokens()
    assert line.text == ''


@P.lemma(a=TEXT, b=TEXT, c=TEXT, i=OneOf(0, 1, 2), tabs=OneOf(0, 1, 2), obj=Bool(), targets=[L + 'insertToken', L + 'appendToken'])
def insert_and_append(a, b, c, i, tabs, obj):
    """inserted and appended tokens appear at their place, separated by tabs"""
    line = HumdrumLine()
    line.appendToken(HumdrumToken(a) if obj else a)
    line.appendToken(b)
    line.insertToken(i, HumdrumToken(c) if obj else c, tabs)
    want = [a, b]
    want.insert(i, c)
    assert [t.text for t in line.tokens()] == want
    line.createLineFromTokens()
    if tabs == 2 and i < 2:
        assert line.text == want[0] + ('\t\t' if i == 0 else '\t') + want[1] + ('\t\t' if i == 1 else '\t') + want[2]
    elif i < 2 or tabs == 0:
        assert line.text == want[0] + '\t' + want[1] + '\t' + want[2]
    for t in line.tokens():
        assert t.ownerLine is line


@P.lemma(a=TEXT, b=TEXT, c=TEXT, t1=OneOf(1, 2), t2=OneOf(1, 2, 3), w1=OneOf(1, 2, 3), w2=OneOf(1, 2, 3), targets=[L + 'addExtraTabs'])
def extra_tabs(a, b, c, t1, t2, w1, w2):
    """aligning a line only adds tabs: the tokens, and what is parsed back, are unchanged"""
    text = a + '\t' + b + '\t' + c
    if text[0:2] != '!!' and t1 <= t2:
        line = HumdrumLine(text)
        line.createTokensFromLine()
        line[0].track = 1
        line[1].track = t1
        line[2].track = t2
        line.addExtraTabs([0, w1, w2, 1])
        line.createLineFromTokens()
        stripped = line.text
        line2 = HumdrumLine(stripped)
        assert line2.createTokensFromLine() == 3
        assert [t.text for t in line2.tokens()] == [a, b, c]


@P.lemma(first=OneOf('=', '==', '=|', '=:|!', '='), n=Int(0), post=Str(excl='\t\n0123456789', alpha='ab-!|:'), b=TEXT, has=Bool(),
         targets=[L + 'barNumber', L + 'barlineNumber', L + 'barlineName'])
def bar_number(first, n, post, b, has):
    """the bar number of a barline line is the first number that directly follows an equals sign"""
    line = HumdrumLine('=' + (str(n) if has else '') + post + '\t=' + b)
    line.createTokensFromLine()
    if has:
        assert line.barNumber == n
        assert line.barlineNumber == n
    elif first == '=':
        line = HumdrumLine('=' + '\t=' + str(n) + post)
        line.createTokensFromLine()
        assert line.barNumber == n
        assert line.barlineNumber == -1
    line = HumdrumLine('4c\t=' + str(n))
    line.createTokensFromLine()
    assert line.barNumber == -1


@P.lemma(s=OneOf(*[(x, y, z) for x in (1, 2, 13) for y in (1, 2, 13) for z in (1, 2, 13)]), w=OneOf('%s', '(%s)a', '((%s)b)a'),
         targets=[L + 'analyzeTracks'])
def tracks(s, w):
    """a token's track is the number in its spine history; subtracks count the tokens of a track from the left"""
    line = HumdrumLine('a\tb\tc')
    line.createTokensFromLine()
    for i in range(3):
        line[i].spineInfo = w.replace('%s', str(s[i]))
    assert line.analyzeTracks()
    for i in range(3):
        assert line[i].track == s[i]
        n = len([x for x in s if x == s[i]])
        assert line[i].subTrack == (0 if n == 1 else len([x for x in s[:i + 1] if x == s[i]]))


@P.lemma(a=Str(excl='\t\n', alpha='4c.', nonempty=True), b=Str(excl='\t\n', alpha='4c.', nonempty=True), n=OneOf(1, 2), null=OneOf('.', '*'),
         targets=[L + 'copyStructure', 'converter21.humdrum.humdrumtoken:HumdrumToken.copyStructure'])
def structure_copy(a, b, n, null):
    """a line built after another one has one null token per token of it, in the same tracks; the original is left alone"""
    src = HumdrumLine(a + '\t' * n + b)
    if a[0:2] != '!!':
        src.createTokensFromLine()
        src[0].track = 1
        src[1].track = 2
        src[1].subTrack = 1
        src[0].spineInfo = '1'
        src[1].spineInfo = '(2)a'
        line = HumdrumLine()
        line.copyStructure(src, null)
        assert [t.text for t in line.tokens()] == [null, null]
        assert line.text == null + '\t' + null
        assert [t.track for t in line.tokens()] == [1, 2]
        assert line[1].subTrack == 1
        assert [t.spineInfo for t in line.tokens()] == ['1', '(2)a']
        line.createTokensFromLine()
        line.appendToken('x')
        line.createLineFromTokens()
        src.createLineFromTokens()
        assert src.text == a + '\t' * n + b
        assert src[1].track == 2


VALUE = Str(excl=WS, alpha='ab', nonempty=True)
B = 'converter21.humdrum.humdrumfilebase:HumdrumFileBase.'


def file_of(lines):
    hf = HumdrumFileBase()
    hf._lines = [HumdrumLine(x) for x in lines]
    return hf


@P.lemma(k1=KEY, v1=VALUE, k2=KEY, v2=VALUE, ask=KEY, u1=Bool(), u2=Bool(), targets=[
    B + 'getReferenceValueForKey', B + 'getGlobalReferenceValueForKey', B + 'getUniversalReferenceValueForKey', B + 'referenceRecords',
    B + 'globalReferenceRecords', B + 'universalReferenceRecords'])
def records_of_a_file(k1, v1, k2, v2, ask, u1, u2):
    """looking a key up gives the first record of that key and kind"""
    hf = file_of(['!!!' + ('!' if u1 else '') + k1 + ': ' + v1, '!! note: x', '4c', '!!!' + ('!' if u2 else '') + k2 + ': ' + v2])
    recs = [(k1, v1, u1), (k2, v2, u2)]
    assert [r.referenceKey for r in hf.referenceRecords()] == [k1, k2]
    assert [r.referenceKey for r in hf.universalReferenceRecords()] == [k for k, v, u in recs if u]
    assert [r.referenceKey for r in hf.globalReferenceRecords()] == [k for k, v, u in recs if not u]

    def first(pred):
        for k, v, u in recs:
            if k == ask and pred(u):
                return v
        return ''
    assert hf.getReferenceValueForKey(ask) == first(lambda u: True)
    assert hf.getGlobalReferenceValueForKey(ask) == first(lambda u: not u)
    assert hf.getUniversalReferenceValueForKey(ask) == first(lambda u: u)
