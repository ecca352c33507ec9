"""What a token is: every predicate and attribute of HumdrumToken against its text and its spine, also after edits."""
from pyvc.api import *
from specs._common import WS, SpineLine, in_spine
from converter21.humdrum import HumdrumLine, HumdrumToken, Convert

P = Prop('C09')
def has_any(text, chars):
    for ch in text:
        if ch in chars:
            return True
    return False


T = 'converter21.humdrum.humdrumtoken:HumdrumToken.'
C = 'converter21.humdrum.convert:Convert.'
WORDS = ['.', '*', '!', '!!', '=', '=1', '==', '*-', '*+', '*^', '*v', '*x', '**kern', '*>A', '*>[A,B]', '4c', '4r', '4c 4e', 'r',
         '8ccL', '4c;', '*staff1', '*part1', '*group2', '16.', '12%5']
TEXT = Str(alpha='*!=.4cr', words=WORDS)


def starts(text, pre):
    return text.startswith(pre)


@P.lemma(text=TEXT, targets=[T + x for x in (
    'isInterpretation', 'isComment', 'isGlobalComment', 'isLocalComment', 'isBarline', 'isData', 'isNull', 'isNullData',
    'isNonNullData', 'isExclusiveInterpretation', 'isSplitInterpretation', 'isMergeInterpretation',
    'isExchangeInterpretation', 'isTerminateInterpretation', 'isAddInterpretation', 'isManipulator')])
def kinds(text):
    """interpretation / comment / barline / data by first character; nulls and spine manipulators by their exact text"""
    t = HumdrumToken(text)
    assert t.text == text and str(t) == text
    first = text[0:1]
    assert t.isInterpretation == (first == '*')
    assert t.isComment == (first == '!')
    assert t.isBarline == (first == '=')
    data = first != '*' and first != '!' and first != '='
    assert t.isData == data
    assert t.isGlobalComment == starts(text, '!!')
    assert t.isLocalComment == (first == '!' and not starts(text, '!!'))
    null = text == '.' or text == '*' or text == '!'
    assert t.isNull == null
    assert t.isNullData == (text == '.')
    assert t.isNonNullData == (data and text != '.')
    ex = starts(text, '**')
    assert t.isExclusiveInterpretation == ex
    assert t.isSplitInterpretation == (text == '*^')
    assert t.isMergeInterpretation == (text == '*v')
    assert t.isExchangeInterpretation == (text == '*x')
    assert t.isTerminateInterpretation == (text == '*-')
    assert t.isAddInterpretation == (text == '*+')
    assert t.isManipulator == (ex or text == '*^' or text == '*v' or text == '*x' or text == '*-' or text == '*+')


@P.lemma(text=TEXT, targets=[T + x for x in ('isChord', 'isLabel', 'hasBeam', 'hasFermata', 'isStaffInterpretation', 'isPart',
                                             'isGroup', 'isStria', 'isScale', 'isSize')])
def features(text):
    t = HumdrumToken(text)
    assert t.isChord == (' ' in text)
    assert t.isLabel == (starts(text, '*>') and '[' not in text)
    assert t.hasFermata == (';' in text)
    assert t.hasBeam == ('L' in text or 'J' in text or 'K' in text or 'k' in text)
    assert t.isStaffInterpretation == starts(text, '*staff')
    assert t.isPart == starts(text, '*part')
    assert t.isGroup == starts(text, '*group')
    assert t.isStria == starts(text, '*stria')
    assert t.isScale == starts(text, '*scale:')
    assert t.isSize == starts(text, '*size:')


SPINES4 = OneOf('**kern', '**mens', '**recip', '**text')
SPINE = OneOf('**kern', '**mens', '**recip', '**text', '**dynam', '**kernel')


@P.lemma(spine=SPINE, text=TEXT, targets=[T + x for x in (
    'isDataType', 'isKern', 'isMens', 'isRecip', 'hasRhythm', 'isStaffDataType', 'dataType')])
def spine_type(spine, text):
    """what the spine's exclusive interpretation says, whatever the token's own text"""
    t = in_spine(text, spine)
    assert t.dataType.text == spine
    assert t.isDataType(spine) and t.isDataType(spine[2:])
    assert not t.isDataType('**' + spine) and not t.isDataType('*')
    assert t.isKern == (spine == '**kern')
    assert t.isMens == (spine == '**mens')
    assert t.isRecip == (spine == '**recip')
    assert t.hasRhythm == (spine in ('**kern', '**mens', '**recip'))
    assert t.isStaffDataType == (spine in ('**kern', '**mens'))


NOTE = Str(excl='*!=. ', alpha='4crRq.-[_]/\\\\(){}&<>', nonempty=True, words=['4c', '4r', '8ryy', '4cR', 'q', '[4c', '4c_', '4c]'])


@P.lemma(spine=OneOf('**kern', '**mens', '**recip'), first=OneOf('', '*', '=', '!'), text=NOTE, targets=[
    T + 'isRest', T + 'isNote', T + 'isPitched', T + 'isUnpitched', T + 'isGrace', T + 'isInvisible', C + 'isKernRest', C + 'isKernNote',
    C + 'isMensRest', C + 'isMensNote'])
def notes_and_rests(spine, first, text):
    """rest, note, grace and invisible are said by letters of the data, in **kern and **mens spines only"""
    t = in_spine(first + text, spine)
    kern, mens, data = spine == '**kern', spine == '**mens', first == ''
    rest = 'r' in text
    letter = has_any(text, 'abcdefgABCDEFG')
    assert t.isRest == (data and (kern or mens) and rest)
    assert t.isNote == (data and (kern and letter and not rest or mens and letter))
    assert t.isPitched == (kern and not rest and 'R' not in text)
    assert t.isUnpitched == (kern and 'R' in text)
    assert t.isGrace == (kern and data and 'q' in text)
    assert t.isInvisible == (kern and (data and 'yy' in text or first == '=' and '-' in text))


@P.lemma(spine=OneOf('**kern', '**mens', '**text'), text=NOTE, targets=[
    T + 'hasSlurStart', T + 'hasSlurEnd', T + 'hasLigatureBegin', T + 'hasLigatureEnd', T + 'hasRectaLigatureBegin', T + 'hasRectaLigatureEnd',
    T + 'hasObliquaLigatureBegin', T + 'hasObliquaLigatureEnd', T + 'isSecondaryTiedNote', T + 'getStemDirection',
    C + 'hasKernPhraseStart', C + 'hasKernPhraseEnd', C + 'isKernSecondaryTiedNote'])
def marks(spine, text):
    t = in_spine(text, spine)
    kern, mens = spine == '**kern', spine == '**mens'
    assert t.hasSlurStart == (kern and '(' in text)
    assert t.hasSlurEnd == (kern and ')' in text)
    assert Convert.hasKernPhraseStart(text) == ('{' in text)
    assert Convert.hasKernPhraseEnd(text) == ('}' in text)
    assert t.hasRectaLigatureBegin == (mens and '[' in text)
    assert t.hasRectaLigatureEnd == (mens and ']' in text)
    assert t.hasObliquaLigatureBegin == (mens and '<' in text)
    assert t.hasObliquaLigatureEnd == (mens and '>' in text)
    assert t.hasLigatureBegin == (mens and ('[' in text or '<' in text))
    assert t.hasLigatureEnd == (mens and (']' in text or '>' in text))


@P.lemma(spine=OneOf('**kern', '**mens'), text=NOTE, targets=[T + 'isSecondaryTiedNote', C + 'isKernSecondaryTiedNote'])
def ties(spine, text):
    t = in_spine(text, spine)
    note = 'r' not in text and has_any(text, 'abcdefgABCDEFG')
    assert t.isSecondaryTiedNote == (spine == '**kern' and note and ('_' in text or ']' in text))


@P.lemma(pre=Str(excl='/\\', alpha='4cL'), mark=OneOf('', '/', '\\'), post=Str(alpha='4c/\\'), targets=[T + 'getStemDirection', C + 'getKernStemDirection'])
def stems(pre, mark, post):
    """the first stem mark counts"""
    if mark != '':
        assert in_spine(pre + mark + post).getStemDirection == mark
        assert in_spine(pre + mark + post, '**text').getStemDirection is None
    else:
        assert in_spine(pre).getStemDirection is None


ELISION = [T + 'startElisionLevel', T + 'endElisionLevel', C + '_getElisionLevelWorker', C + 'getKernSlurStartElisionLevel',
           C + 'getKernSlurEndElisionLevel', C + 'getKernPhraseStartElisionLevel', C + 'getKernPhraseEndElisionLevel']
MARKS = {'(': (HumdrumToken.SLUR, False), ')': (HumdrumToken.SLUR, True), '{': (HumdrumToken.PHRASE, False), '}': (HumdrumToken.PHRASE, True)}


def level(t, mark, i):
    what, end = MARKS[mark]
    return t.endElisionLevel(what, i) if end else t.startElisionLevel(what, i)


@P.lemma(mark=OneOf('(', ')', '{', '}'), amp=OneOf(0, 2), pre=Str(excl='(){}&', alpha='4c'), mid=Str(excl='(){}&', alpha='4cL', nonempty=True),
         amp2=OneOf(0, 1), two=Bool(), post=Str(excl='(){}', alpha='4c&'), targets=ELISION)
def elision(mark, amp, pre, mid, amp2, two, post):
    """the elision level of the n-th slur or phrase mark is the number of & right before it; -1 when there is none"""
    t = in_spine(pre + '&' * amp + mark + mid + '&' * amp2 + (mark if two else '') + post)
    assert level(t, mark, 0) == amp
    assert level(t, mark, 1) == (amp2 if two else -1)
    assert level(t, mark, 2) == -1


@P.lemma(text=Str(alpha='4c&(){}'), free=Str(excl='(){}', alpha='4c&'), targets=ELISION)
def no_elision(text, free):
    for mark in '(){}':
        assert level(in_spine(text, '**text'), mark, 0) == -1
        assert level(in_spine(free), mark, 0) == -1
        assert level(in_spine(free + '({'.replace(mark, '') + free), mark, 0) == -1


@P.lemma(a=Str(excl=' ', alpha='4c'), b=Str(excl=' ', alpha='4e'), c=Str(excl=' ', alpha='4e'), i=OneOf(-1, 0, 1, 2, 3), new=Str(excl=' ', alpha='8g', nonempty=True),
         ask=Bool(), targets=[T + 'subtokens', T + 'subtokenCount', T + 'replaceSubtoken', T + 'isChord'])
def subtokens(a, b, c, i, new, ask):
    """a chord's subtokens are the texts between spaces, before and after one of them is replaced"""
    t = HumdrumToken(a + ' ' + b + ' ' + c)
    want = [a, b, c]
    assert t.isChord and t.subtokenCount == 3
    if ask:
        assert t.subtokens == want
    t.replaceSubtoken(i, new)
    if 0 <= i < 3:
        want[i] = new
    assert t.subtokens == want
    assert t.text == want[0] + ' ' + want[1] + ' ' + want[2]
    t.text = new
    assert t.subtokens == [new] and t.subtokenCount == 1 and not t.isChord


@P.lemma(pre=Str(excl='. ', alpha='4c'), n=OneOf(0, 1, 2, 3), mid=Str(excl='. ', alpha='4c'), more=OneOf('', '.'), sp=OneOf('', ' '),
         post=Str(alpha='4.c'), targets=[T + 'dotCount'])
def dots(pre, n, mid, more, sp, post):
    """augmentation dots of the first note"""
    if sp == '':
        post = ''
    assert HumdrumToken(pre + '.' * n + mid + more + sp + post).dotCount == n + len(more)


@P.lemma(n=Int(0), m=Int(0), tail=Str(excl='0123456789/\n', alpha='ab-'), targets=[
    T + 'staff', T + 'staffNums', T + 'partNum', T + 'groupNum'])
def numbers(n, m, tail):
    assert HumdrumToken('*staff' + str(n)).staffNums == [n]
    assert HumdrumToken('*staff' + str(n)).staff == str(n)
    assert HumdrumToken('*staff' + str(n) + '/' + str(m)).staffNums == [n, m]
    assert HumdrumToken('*part' + str(n) + tail).partNum == n
    assert HumdrumToken('*part' + str(n) + tail).groupNum == -1
    assert HumdrumToken('*group' + str(n) + tail).groupNum == n
    assert HumdrumToken('*group' + str(n) + tail).partNum == -1
    assert HumdrumToken('*staff' + str(n) + tail).partNum == -1
    assert HumdrumToken('*part' + tail).partNum == -1
    assert HumdrumToken('*part' + str(n)).staffNums == [] and HumdrumToken('*part' + str(n)).staff == ''


@P.lemma(n=Int(0), tail=Str(excl='0123456789', alpha='ab-'), targets=[T + 'stria'])
def staff_lines(n, tail):
    """absurd or missing line counts read as five lines"""
    got = HumdrumToken('*stria' + str(n) + tail).stria
    assert got == n or n > 10 and got == 5
    assert n <= 1000 or got == 5
    assert HumdrumToken('*stria' + tail).stria == 5
    assert HumdrumToken('*staff' + str(n)).stria == 5


@P.lemma(n=Int(0), frac=OneOf('', '.5', '.25', '.'), what=OneOf('*scale:', '*size:', '*part:'), targets=[T + 'scale'])
def scale(n, frac, what):
    t = HumdrumToken(what + str(n) + frac + '%')
    assert t.scale == (1 if what == '*part:' else n + (0.5 if frac == '.5' else 0.25 if frac == '.25' else 0))


@P.lemma(mid=Str(excl='0123456789', alpha='=!|:'), n=Int(0), suffix=OneOf('', 'a', 'b'), post=Str(excl='0123456789abcdefghijklmnopqrstuvwxyz', alpha='!|:-'),
         targets=[T + 'barlineNumber', T + 'barlineName'])
def barline_number(mid, n, suffix, post):
    """the first number in a barline is its measure number; a lower-case letter right after it makes a name"""
    t = HumdrumToken('=' + mid + str(n) + suffix + post)
    assert t.barlineNumber == n
    assert t.barlineName == (str(n) + suffix if suffix else '')
    t = HumdrumToken('=' + mid)
    assert t.barlineNumber == -1 and t.barlineName == ''
    t = HumdrumToken('4' + str(n) + suffix)
    assert t.barlineNumber == -1 and t.barlineName == ''


@P.lemma(text=Str(alpha='0123456789%.c', words=['4', '4.', '12%5', '12%5..', '4c', '', '%', '4%']), n=Int(0), m=Int(0), dots=OneOf(0, 1, 2),
         junk=Str(excl='0123456789.%\n', alpha='cr', nonempty=True), targets=[T + 'isRecipOnly'])
def recip_only(text, n, m, dots, junk):
    d = '.' * dots
    assert HumdrumToken(str(n) + d).isRecipOnly
    assert HumdrumToken(str(n) + '%' + str(m) + d).isRecipOnly
    assert not HumdrumToken(str(n) + d + junk).isRecipOnly
    assert not HumdrumToken(junk + str(n) + d).isRecipOnly
    assert not HumdrumToken('').isRecipOnly and not HumdrumToken('.').isRecipOnly and not HumdrumToken('%' + str(n)).isRecipOnly


NAMED = Str(excl='\n', alpha='ab"\'', nonempty=True)


@P.lemma(text=NAMED, first=OneOf('a', 'z', 'C', 'T', '"', "'", '5'), targets=[T + x for x in (
    'isInstrumentCode', 'isInstrumentClassCode', 'isInstrumentName', 'isInstrumentGroupName', 'isInstrumentAbbreviation',
    'isInstrumentGroupAbbreviation', 'instrumentCode', 'instrumentClassCode', 'instrumentName', 'instrumentGroupName',
    'instrumentAbbreviation', 'instrumentGroupAbbreviation')])
def instruments(text, first):
    """*Icode, *ICclass, *I"name, *I""group name, *I'abbreviation, *I''group abbreviation"""
    t = HumdrumToken('*I' + first + text)
    code = first in ('a', 'z')
    assert t.isInstrumentCode == code
    assert t.instrumentCode == (first + text if code else '')
    assert t.isInstrumentClassCode == (first == 'C')
    assert t.instrumentClassCode == (text if first == 'C' else '')
    q, a = first == '"', first == "'"
    double = text[0:1] == first
    assert t.isInstrumentName == (q and not double)
    assert t.instrumentName == (text if q and not double else '')
    assert t.isInstrumentAbbreviation == (a and not double)
    assert t.instrumentAbbreviation == (text if a and not double else '')
    group = double and len(text) > 1
    assert t.isInstrumentGroupName == (q and group)
    assert t.instrumentGroupName == (text[1:] if q and group else '')
    assert t.isInstrumentGroupAbbreviation == (a and group)
    assert t.instrumentGroupAbbreviation == (text[1:] if a and group else '')


@P.lemma(n=Int(0), f=OneOf('', '.4', '.5', '.67', '.'), title=Str(excl=']\n', alpha='Adagio', nonempty=True), other=Str(excl='0123456789[', alpha='M/4'), targets=[
    T + 'isTempo', T + 'tempoBPM', T + 'tempoName'])
def tempo(n, f, title, other):
    """*MM124.5 is a tempo of 125 (rounded half up) beats per minute, *MM[Adagio] a named one"""
    t = HumdrumToken('*MM' + str(n) + f)
    assert t.isTempo and t.tempoName == ''
    assert t.tempoBPM == (n + 1 if f in ('.5', '.67') else n)
    t = HumdrumToken('*MM[' + title + ']')
    assert t.isTempo and t.tempoBPM == 0 and t.tempoName == title
    t = HumdrumToken('*MM/' + other)
    assert not t.isTempo and t.tempoBPM == 0 and t.tempoName == ''


INTERPS = ['*MM120', '*MM[Adagio]', '*M4/4', '*M3', '*met(c)', '*omet(c|)', '*MM', '*M', '*I"a', '*I""a', "*I'a", "*I''a", '*I"', '*ICa', '*Ia', '*met(',
           '*k[f#]', '*clefG2', '*Trd1c2', '*ITrd-1c-2', '!MM12', '*xM4/4', 'I"ab', '*X"ab', '**MM120', '*Mx/4']


@P.lemma(text=Str(alpha='*MmetoI"\'()[]4/Cad', words=INTERPS), which=OneOf(*range(10)), targets=[T + x for x in (
    'isTempo', 'isTimeSignature', 'isMensurationSymbol', 'isOriginalMensurationSymbol', 'isInstrumentName', 'isInstrumentGroupName',
    'isInstrumentAbbreviation', 'isInstrumentGroupAbbreviation', 'isInstrumentClassCode', 'isKeySignature', 'isTranspose', 'isInstrumentTranspose')])
def interpretation_kinds(text, which):
    """any text is a tempo, meter, mensuration, key, transposition or instrument interpretation exactly when it is spelled as one"""
    t = HumdrumToken(text)
    if which == 0:
        fourth = text[3] if len(text) > 3 else ' '
        assert t.isTempo == (starts(text, '*MM') and (fourth.isdigit() or fourth == '['))
    elif which == 1:
        third = text[2] if len(text) > 2 else ' '
        assert t.isTimeSignature == (starts(text, '*M') and third.isdigit() and '/' in text)
    elif which == 2:
        assert t.isMensurationSymbol == (starts(text, '*met(') and text.endswith(')'))
        assert t.isOriginalMensurationSymbol == (starts(text, '*omet(') and text.endswith(')'))
    elif which == 3:
        assert t.isInstrumentName == (starts(text, '*I"') and len(text) > 3 and text[3:4] != '"')
    elif which == 4:
        assert t.isInstrumentGroupName == (starts(text, '*I""') and len(text) > 4)
    elif which == 5:
        assert t.isInstrumentAbbreviation == (starts(text, "*I'") and len(text) > 3 and text[3:4] != "'")
    elif which == 6:
        assert t.isInstrumentGroupAbbreviation == (starts(text, "*I''") and len(text) > 4)
    elif which == 7:
        assert t.isInstrumentClassCode == starts(text, '*IC')
    elif which == 8:
        assert t.isKeySignature == (starts(text, '*k[') and text.endswith(']'))
    else:
        assert t.isTranspose == starts(text, '*Trd') and t.isInstrumentTranspose == starts(text, '*ITrd')


BY_TEXT = ['isInterpretation', 'isComment', 'isGlobalComment', 'isLocalComment', 'isBarline', 'isData', 'isNull', 'isNullData', 'isNonNullData',
           'isExclusiveInterpretation', 'isSplitInterpretation', 'isMergeInterpretation', 'isExchangeInterpretation', 'isTerminateInterpretation',
           'isAddInterpretation', 'isManipulator', 'isChord', 'isLabel', 'hasBeam', 'hasFermata', 'isStaffInterpretation', 'isPart', 'isGroup',
           'isRecipOnly', 'isRest', 'isNote']
BY_SPINE = ['isKern', 'isMens', 'isRecip', 'hasRhythm', 'isStaffDataType', 'isRest', 'isNote']
CHANGE = [T + '_clearCachedTokenTextProperties', T + '_clearCachedDataTypeProperties', T + 'ownerLine', T + 'track', T + 'text']
KIND = OneOf('4c', '4r', '.', '*', '!', '!!x', '=1', '*-', '*+', '*^', '*v', '*x', '**kern', '*>A', '4c 4e', '8cL', '4c;', '*staff1', '*part1', '*group1')


@P.lemma(what=OneOf(*BY_TEXT), old=Str(alpha='*!=.4crL ;', words=WORDS), new=OneOf('4c', '4r', '.', '*-', '=1', '**kern', '8cL 4e;', '*staff1'), targets=CHANGE + [T + x for x in BY_TEXT])
def after_text_change(what, old, new):
    """every predicate speaks of the present text, whatever was asked before it changed"""
    t = in_spine(old)
    getattr(t, what)
    t.text = new
    assert getattr(t, what) == getattr(in_spine(new), what)


@P.lemma(old=KIND, new=KIND, targets=CHANGE + [T + x for x in BY_TEXT])
def after_all_were_asked(old, new):
    t = in_spine(old)
    for p in BY_TEXT:
        getattr(t, p)
    t.text = new
    fresh = in_spine(new)
    for p in BY_TEXT:
        assert getattr(t, p) == getattr(fresh, p)


@P.lemma(what=OneOf(*BY_SPINE), text=OneOf('4c', '4r', '.'), old=SPINES4, new=SPINES4, how=OneOf('line', 'track'),
         targets=CHANGE + [T + x for x in BY_SPINE])
def after_spine_change(what, text, old, new, how):
    """a token moved to another spine answers for that spine"""
    t = in_spine(text, old)
    getattr(t, what)
    fresh = in_spine(text, new)
    if how == 'track':
        t.ownerLine.start = HumdrumToken(new)
        t.track = 2
    else:
        t.ownerLine = fresh.ownerLine
    assert getattr(t, what) == getattr(fresh, what)


@P.lemma(a=OneOf('4c', '*^', '=1', '!x', '.'), b=OneOf('4e', 'r;'), i=OneOf(0, 1), new=OneOf('*-', '4r', '.', '!!y', '8cL'), targets=CHANGE + [T + 'replaceSubtoken'] + [T + x for x in BY_TEXT])
def after_subtoken_change(a, b, i, new):
    """every predicate speaks of the present text also after one subtoken was replaced"""
    t = in_spine(a + ' ' + b)
    for p in BY_TEXT:
        getattr(t, p)
    n = t.subtokenCount
    parts = a.split(' ') + [b]
    assert n == len(parts)
    t.replaceSubtoken(i, new)
    parts[i] = new
    text = ' '.join(parts)
    assert t.text == text
    fresh = in_spine(text)
    for p in BY_TEXT:
        assert getattr(t, p) == getattr(fresh, p)


EVERY = BY_TEXT + [p for p in BY_SPINE if p not in BY_TEXT]


@P.lemma(what=OneOf(*EVERY), text=OneOf('4c', '*^'), spine=OneOf('**kern'), first=OneOf('text', 'track', 'line', 'subtoken'),
         second=OneOf('text', 'track', 'line'), between=OneOf(True), targets=CHANGE + [T + x for x in EVERY])
def after_two_changes(what, text, spine, first, second, between):
    """... and after two changes of any kind, asked in between or not"""
    t = in_spine(text, spine)
    getattr(t, what)
    now, kind = text, spine
    for change, newtext, newspine in ((first, '8gr', '**recip'), (second, '.', '**kern')):
        if change == 'text':
            t.text = newtext
            now = newtext
        elif change == 'subtoken':
            t.replaceSubtoken(0, newtext)
            now = newtext
        elif change == 'track':
            t.ownerLine.start = HumdrumToken(newspine)
            t.track = t.track + 1
            kind = newspine
        else:
            t.ownerLine = in_spine('x', newspine).ownerLine
            kind = newspine
        if between:
            assert getattr(t, what) == getattr(in_spine(now, kind), what)
    assert getattr(t, what) == getattr(in_spine(now, kind), what)
