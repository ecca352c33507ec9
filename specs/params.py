"""Parameters attached to tokens and lines: the three-level store, and the text they are parsed from."""
from pyvc.api import *
from converter21.humdrum.humhash import HumHash
from converter21.humdrum import HumParamSet, HumdrumLine, HumdrumToken
from converter21.humdrum.m21convert import M21Convert

P = Prop('C07')
H = 'converter21.humdrum.humhash:'
PS = 'converter21.humdrum.humparamset:HumParamSet.'
NAME = Str(excl=':', alpha='ab', maxlen=2, words=['', 'auto', 'LO'])
KEY = Str(excl=':', alpha='abt', maxlen=2, nonempty=True)
VAL = Int()


def address(ns1, ns2, key):
    """a single namespace may be given at either level"""
    if ns2 == '':
        return ('', ns1, key)
    return (ns1, ns2, key)


@P.lemma(a1=NAME, a2=NAME, ak=KEY, b1=NAME, b2=NAME, bk=KEY, v=VAL, w=VAL,
         targets=[H + 'HumHash.setValue', H + 'HumHash.getValue', H + 'HumHash.isDefined', H + 'fixupNamespace1Namespace2Key'])
def last_write_wins(a1, a2, ak, b1, b2, bk, v, w):
    """a value is what was last stored at exactly that address; other addresses are untouched"""
    h = HumHash()
    assert h.getValue(a1, a2, ak) is None
    assert not h.isDefined(a1, a2, ak)
    h.setValue(a1, a2, ak, v)
    same = address(a1, a2, ak) == address(b1, b2, bk)
    assert h.isDefined(b1, b2, bk) == same
    h.setValue(b1, b2, bk, w)
    assert h.getValue(b1, b2, bk) == w
    assert h.getValue(a1, a2, ak) == (w if same else v)
    assert h.isDefined(a1, a2, ak) and h.isDefined(b1, b2, bk)
    assert h.getParameterCount() == (1 if same else 2)
    assert h.hasParameters()


@P.lemma(a1=NAME, a2=NAME, ak=KEY, b1=NAME, b2=NAME, bk=KEY, v=VAL, w=VAL, targets=[H + 'HumHash.deleteValue'])
def delete_removes_one(a1, a2, ak, b1, b2, bk, v, w):
    h = HumHash()
    h.deleteValue(a1, a2, ak)
    h.setValue(a1, a2, ak, v)
    h.setValue(b1, b2, bk, w)
    h.deleteValue(a1, a2, ak)
    same = address(a1, a2, ak) == address(b1, b2, bk)
    assert not h.isDefined(a1, a2, ak)
    assert h.getValue(a1, a2, ak) is None
    assert h.isDefined(b1, b2, bk) == (not same)
    assert same or h.getValue(b1, b2, bk) == w
    assert h.getParameterCount() == (0 if same else 1)
    assert h.hasParameters() == (not same)


@P.lemma(n1=NAME, n2=NAME, key=KEY, v=VAL, targets=[H + 'getKeyTuple', H + 'fixupNamespace1Namespace2Key'])
def address_forms(n1, n2, key, v):
    """'NS1:NS2:key', 'NS2:key' and 'key' mean the same as the separate arguments"""
    h = HumHash()
    h.setValue(n1 + ':' + n2 + ':' + key, v)
    assert h.getValue(n1, n2, key) == v
    h = HumHash()
    h.setValue(n2 + ':' + key, v)
    assert h.getValue('', n2, key) == v
    assert h.getValue(n2, key) == v
    assert h.getValue(n2, '', key) == v
    h = HumHash()
    h.setValue(key, v)
    assert h.getValue('', '', key) == v
    assert h.getValue(key) == v
    assert h.getValue('::' + key) == v


FULL = Str(excl=':', alpha='ab', maxlen=2, nonempty=True)


@P.lemma(a1=FULL, a2=FULL, ak=KEY, b1=FULL, b2=FULL, bk=KEY, q1=FULL, q2=FULL, targets=[
    H + 'HumHash.getKeys', H + 'HumHash.hasParameters', H + 'HumHash.getParameterCount', H + 'fixupNamespace1Namespace2'])
def namespaces(a1, a2, ak, b1, b2, bk, q1, q2):
    """listing and counting by namespace see exactly the parameters of that namespace"""
    h = HumHash()
    h.setValue(a1, a2, ak, 1)
    h.setValue(b1, b2, bk, 2)
    inner, outer = [], []
    if (a1, a2, ak) == (b1, b2, bk):
        every = [(a1, a2, ak)]
    else:
        every = [(a1, a2, ak), (b1, b2, bk)]
    for x1, x2, xk in every:
        if x1 == q1:
            outer.append(x2 + ':' + xk)
            if x2 == q2:
                inner.append(xk)
    assert h.getParameterCount(q1) == len(outer)
    assert h.getParameterCount(q1, q2) == len(inner)
    assert h.getParameterCount(q1 + ':' + q2) == len(inner)
    assert h.hasParameters(q1) == (len(outer) > 0)
    assert h.hasParameters(q1, q2) == (len(inner) > 0)
    assert h.hasParameters(q1 + ':' + q2) == (len(inner) > 0)
    assert h.getKeys(q1) == outer
    assert h.getKeys(q1, q2) == inner
    assert h.getKeys(q1 + ':' + q2) == inner
    assert h.getKeys() == [x1 + ':' + x2 + ':' + xk for x1, x2, xk in every] or a1 == b1


@P.lemma(i=Int(), targets=[H + 'HumHash.getValueInt', H + 'HumHash.getValueString', H + 'HumHash.getValueBool',
                           H + 'HumHash.getValueFloat'])
def typed_reads(i):
    """a stored number reads back through every typed accessor; a missing one reads as nothing / zero / false"""
    h = HumHash()
    assert h.getValueString('', '', 'n') is None and h.getValueInt('', '', 'n') == 0
    assert h.getValueBool('', '', 'n') is False and h.getValueFloat('', '', 'n') == 0
    assert h.getValueHumNum('', '', 'n') == 0 and h.getValueToken('', '', 'n') is None
    h.setValue('', '', 'n', i)
    assert h.getValueInt('', '', 'n') == i
    assert h.getValueFloat('', '', 'n') == i
    assert h.getValueString('', '', 'n') == str(i)
    assert h.getValueBool('', '', 'n') == (i != 0)
    h.setValue('', '', 'n', str(i))
    assert h.getValueInt('', '', 'n') == i
    assert h.getValueString('', '', 'n') == str(i)
    assert h.getValueBool('', '', 'n') == (i != 0)


@P.lemma(v=OneOf(True, False, 'true', 'false', '0', '1', '', 'x', 0.0, 0.5, 3, Fraction(1, 2), Fraction(0), '3/4', '2.5'),
         targets=[H + 'HumHash.getValueBool', H + 'HumHash.getValueHumNum', H + 'HumHash.getValueFloat'])
def typed_reads_mixed(v):
    h = HumHash()
    h.setValue('a', 'b', 'k', v)
    want = v if isinstance(v, bool) else v not in ('false', '0') if isinstance(v, str) else int(v) != 0
    assert h.getValueBool('a', 'b', 'k') == want
    if isinstance(v, (int, float, Fraction)):
        assert h.getValueHumNum('a', 'b', 'k') == v
        assert h.getValueFloat('a', 'b', 'k') == v


@P.lemma(text=Str(), other=Str(), targets=[H + 'HumHash.setOrigin', H + 'HumHash.getOrigin', H + 'HumHash.getValueToken'])
def origins(text, other):
    """origin and token values are the very tokens that were stored"""
    tok, tok2 = HumdrumToken(text), HumdrumToken(other)
    h = HumHash()
    assert h.getOrigin('x', 'k') is None
    h.setOrigin('x', 'k', tok2)
    h.setValue('x', 'k', tok)
    assert h.getOrigin('x', 'k') is None
    h.setOrigin('x', 'k', tok2)
    assert h.getOrigin('x', 'k') is tok2
    assert h.getValueToken('x', 'k') is tok
    assert h.getValueString('x', 'k') is None
    assert h.getValueInt('x', 'k') == 0


# ---- layout parameter text

PNAME = Str(excl=':=!&\t\n', alpha='abt', maxlen=2)
PVALUE = Str(excl=':&\t\n', alpha='ab= 1', maxlen=4)


@P.lemma(bangs=OneOf('!', '!!'), n1=Str(excl=':!', alpha='LOa', maxlen=2, nonempty=True), n2=Str(excl=':', alpha='LOa', maxlen=2),
         k1=PNAME, v1=PVALUE, c=Bool(), v1b=PVALUE, k2=PNAME, two=OneOf(0, 1, 2), v2=PVALUE,
         opts=dict(peel=4), targets=[PS + 'readString', PS + '__init__', PS + 'getParameterName', PS + 'getParameterValue', PS + 'count'])
def layout_text(bangs, n1, n2, k1, v1, c, v1b, k2, two, v2):
    """!NS1:NS2:key=value:flag parses to its namespaces and its parameters in order; &colon; stands for a colon"""
    text = bangs + n1 + ':' + n2 + ':' + k1 + '=' + v1 + ('&colon;' + v1b if c else '')
    want = [(k1, v1 + (':' + v1b if c else ''))]
    if two == 1:
        text = text + ':' + k2
        want.append((k2, 'true'))
    elif two == 2:
        text = text + ':' + k2 + '=' + v2
        want.append((k2, v2))
    ps = HumParamSet(text)
    assert ps.namespace1 == n1 and ps.namespace2 == n2
    assert ps.namespace == n1 + ':' + n2
    assert ps.count == len(want)
    for i in range(len(want)):
        assert ps.getParameterName(i) == want[i][0]
        assert ps.getParameterValue(i) == want[i][1]
    assert ps.getParameterName(-1) == '' and ps.getParameterValue(ps.count) == ''


@P.lemma(n2=Str(excl=':\t\n', alpha='TX', maxlen=2), k1=Str(excl=':=&\t\n', alpha='abt', nonempty=True), v1=PVALUE, c=Bool(), v1b=PVALUE,
         flag=Str(excl=':=&\t\n', alpha='xyz', nonempty=True),
         targets=['converter21.humdrum.humdrumline:HumdrumLine.setLayoutParameters',
                  'converter21.humdrum.humdrumline:HumdrumLine.setParameters'])
def layout_line(n2, k1, v1, c, v1b, flag):
    """a global layout comment stores the same parameters on its token, marked global"""
    line = HumdrumLine('!!LO:' + n2 + ':' + flag + ':' + k1 + '=' + v1 + ('&colon;' + v1b if c else ''))
    line.createTokensFromLine()
    line.setLayoutParameters()
    tok = line[0]
    assert tok.getValue('LO', n2, k1) == v1 + (':' + v1b if c else '')
    assert flag == k1 or tok.getValue('LO', n2, flag) == 'true'
    assert tok.getValueBool('global')


@P.lemma(n=Str(excl='', alpha='ab'), m=Str(alpha='ab'), v=Str(), w=Str(), x=Str(),
         targets=[PS + 'setParameter', PS + 'addParameter'])
def set_parameter(n, m, v, w, x):
    """setting a parameter replaces the first one of that name, or adds it last"""
    ps = HumParamSet()
    assert ps.addParameter(n, v) == 0
    assert ps.addParameter(m, w) == 1
    i = ps.setParameter(m, x)
    assert i == (0 if n == m else 1)
    assert ps.count == 2
    assert ps.getParameterValue(i) == x
    assert ps.getParameterValue(1 - i) == (w if n == m else v)
    if n != 'new' and m != 'new':
        assert ps.setParameter('new', v) == 2


WORD = OneOf('dolce', 'a=b', 'Ünï', '!x', 'p y', '&amp;', 'x')


WHITE = {'\n': '\\n', '\t': ' ', '\r': ' ', '\v': ' ', '\f': ' ', '\u00a0': '&nbsp;'}


@P.lemma(a=WORD, mid=OneOf('', ' ', ':', ' : ', '\u00a0', '::', ':t=', *WHITE), b=WORD, pad=OneOf('', ' ', '\t'),
         targets=['converter21.humdrum.m21convert:M21Convert._cleanSpacesAndColons', PS + 'readString'])
def text_survives(a, mid, b, pad):
    """text written into a layout parameter (colons, line breaks, odd spaces included) stays one parameter on one line and
    reads back as that text"""
    clean = M21Convert._cleanSpacesAndColons(pad + a + mid + b + pad)
    white = WHITE.get(mid, mid)
    assert clean == a + white.replace(':', '&colon;') + b
    ps = HumParamSet('!LO:TX:t=' + clean)
    assert ps.count == 1
    assert ps.getParameterValue(0) == a + white + b


# ---------------------------------------------------------------- which token a layout comment is about

from converter21.humdrum import HumdrumFileStructure

S = 'converter21.humdrum.humdrumfilestructure:HumdrumFileStructure.'
T = 'converter21.humdrum.humdrumtoken:HumdrumToken.'
SET = OneOf('', 'vis=8', 'vis=16:n=1', 'n=2:vis=4', 'head=x:n=1', 'n=2')


def own(part):
    """(value of vis or None, n or None) of one comment"""
    vis = n = None
    for p in part.split(':'):
        if p[0:4] == 'vis=':
            vis = p[4:]
        if p[0:2] == 'n=':
            n = int(p[2:])
    return vis, n


@P.lemma(a=SET, b=SET, cat=OneOf('N', 'X'), which=OneOf(-1, 0, 1), targets=[T + 'layoutParameter', T + 'addLinkedParameterSet'])
def parameter_of_a_chord_note(a, b, cat, which):
    """a parameter given for note n of a chord is that note's; one given without n is every note's; the first one counts"""
    tok = HumdrumToken('4c 4e')
    sets = [(x, c) for x, c in ((a, 'N'), (b, cat)) if x != '']
    for i, (x, c) in enumerate(sets):
        line = HumdrumLine('!LO:' + c + ':' + x)
        line.createTokensFromLine()
        line.lineIndex = i
        line[0].storeParameterSet()
        tok.addLinkedParameterSet(line[0])
        tok.addLinkedParameterSet(line[0])
    assert tok.linkedParameterSetCount == len(sets)
    want = ''
    for x, c in sets:
        vis, n = own(x)
        if want == '' and c == 'N' and vis is not None and (n is None or which < 0 or n == which + 1):
            want = vis
    assert tok.layoutParameter('N', 'vis', which) == want
    assert tok.getVisualDuration(which) == want
    has = any(c == 'N' and own(x)[0] is not None for x, c in sets)
    assert tok.getBooleanLayoutParameter('N', 'vis') == has
    assert tok.getBooleanLayoutParameter('N', 'n') == any(c == 'N' and own(x)[1] is not None for x, c in sets)


NEXT = OneOf('4c', '.', '*', '*clefG2', '=1', '! words', '!!note', '!LO:N:vis=8')


def kern_file(texts):
    f = HumdrumFileStructure()
    f.isQuiet = True
    prev = None
    for i, t in enumerate(texts):
        f.appendLine(t)
        line = f[i]
        line.createTokensFromLine()
        line.lineIndex = i
        line.ownerFile = f
        for tok in line.tokens():
            tok.track = 1
        if t[0:2] != '!!':
            if prev is not None:
                assert f.stitchLinesTogether(prev, line)
            prev = line
    f.addToTrackStarts(f[0][0])
    return f


@P.lemma(a=NEXT, b=NEXT, c=OneOf('4c', '*', '!LO:N:vis=8'), targets=[S + 'processLocalParametersForStrand', S + 'analyzeStrands', T + 'getLinkedParameterSet'])
def local_parameters(a, b, c):
    """a layout comment in a spine is about the next data token, barline or (non-null) interpretation of that spine"""
    kinds = ['**kern', '*M4/4', '!LO:TX:t=hello', a, b, c, '4g', '*-']
    f = kern_file(kinds)
    assert f.analyzeStrands()
    for i in range(len(kinds)):
        n = 0
        k = i - 1
        takes = kinds[i][0] in '4.=' or (kinds[i][0] == '*' and kinds[i] not in ('*', '*-', '**kern'))
        want = []
        while takes and k > 0 and not (kinds[k][0] in '4.=' or (kinds[k][0] == '*' and kinds[k] != '*')):
            if kinds[k][0:4] == '!LO:':
                want = [k] + want
            k -= 1
        tok = f[i][0]
        assert tok.linkedParameterSetCount == len(want)
        for n, k in enumerate(want):
            assert tok.getLinkedParameterSet(n) is f[k][0].parameterSet
            assert not tok.linkedParameterIsGlobal(n)
            assert tok.getLinkedParameterSet(n).getParameterValue(0) == ('hello' if k == 2 else '8')


GNEXT = OneOf('4c\t4d', '.\t.', '.\t4e', '*\t*', '*\t*clefG2', '=1\t=1', '!\t! words', '!!note', '!!LO:N:vis=8', '!!LO:N:ignore')


@P.lemma(a=GNEXT, b=GNEXT, targets=[S + 'analyzeGlobalParameters', 'converter21.humdrum.humdrumline:HumdrumLine.storeGlobalLinkedParameters'])
def global_parameters(a, b):
    """a global layout comment is about every token of the next line that is neither a comment nor all null"""
    kinds = ['**kern\t**kern', '!!LO:TX:t=hello', a, b, '4g\t4f', '*-\t*-']
    f = HumdrumFileStructure()
    for i, t in enumerate(kinds):
        f.appendLine(t)
        f[i].createTokensFromLine()
        f[i].lineIndex = i
        f[i].ownerFile = f
    assert f.analyzeGlobalParameters()
    waiting = []
    for i in range(len(kinds)):
        k = kinds[i]
        if k[0:5] == '!!LO:':
            waiting.append(i)
        elif k[0] != '!' and k != '.\t.' and k != '*\t*':
            for tok in f[i].tokens():
                want = [w for w in waiting if kinds[w][0:13] != '!!LO:N:ignore']
                assert tok.linkedParameterSetCount == len(want)
                for n, w in enumerate(want):
                    assert tok.getLinkedParameterSet(n) is f[w][0].parameterSet
                    assert tok.linkedParameterIsGlobal(n)
                    assert tok.getLinkedParameterSet(n).getParameterValue(0) == ('hello' if w == 1 else '8')
            waiting = []
        else:
            for tok in f[i].tokens():
                assert tok.linkedParameterSetCount == 0
