"""Metadata: dates, reference records and keys, between Humdrum / ISO text and music21."""
from pyvc.api import *
import random
import re
import music21 as m21
from converter21.shared.m21utilities import M21Utilities
from converter21.humdrum.m21convert import M21Convert
from converter21.humdrum.humdrumfile import HumdrumFile

P = Prop('C13')
U = 'converter21.shared.m21utilities:M21Utilities.'
C = 'converter21.humdrum.m21convert:M21Convert.'
F = 'converter21.humdrum.humdrumfile:HumdrumFile.'
ERR = ('', 'x', 'z')
MEAN = {'': None, 'x': 'approximate', 'z': 'uncertain', '~': 'approximate', '?': 'uncertain'}
PRIM = 'music21.metadata.primitives is interpreted from its installed source'


def fields(d):
    return (d.year, d.month, d.day, d.hour, d.minute, d.second)


def errors(d):
    return (d.yearError, d.monthError, d.dayError, d.hourError, d.minuteError, d.secondError)


def parsed(y, e0, m, e1, d, e2):
    date = m21.metadata.Date()
    date.year = y
    date.yearError = MEAN[e0]
    if e1 is not None:
        date.month = m
        date.monthError = MEAN[e1]
    if e2 is not None:
        date.day = d
        date.dayError = MEAN[e2]
    return date


def same(a, b):
    return fields(a) == fields(b) and errors(a) == errors(b)


@P.lemma(year=Int(), e0=OneOf(*ERR), month=Int(1, 12), e1=OneOf(None, *ERR), day=Int(1, 31), e2=OneOf(None, *ERR), note=PRIM,
         targets=[U + '_stringFromDate', U + '_dateFromString', U + '_stripDateError', U + '_dateErrorToSymbol'])
def dates(year, e0, month, e1, day, e2):
    """every date, whichever of its parts are known and however certain they are, is written as a text that reads back as the same date"""
    d = parsed(year, e0, month, e1, day, e2)
    back = M21Utilities._dateFromString(M21Utilities._stringFromDate(d))
    assert back is not None
    assert fields(back) == fields(d)
    assert errors(back) == errors(d)


@P.lemma(year=Int(1), day=OneOf(None, 7), hour=Int(0, 23), minute=Int(0, 59), second=Int(0, 59), known=OneOf(1, 2, 3, 4, 5, 6, 7),
         e=OneOf(*ERR), note=PRIM, targets=[U + '_stringFromDate', U + '_dateFromString'])
def times_of_day(year, day, hour, minute, second, known, e):
    """a time of day, also midnight and full hours, is written so that it reads back as the same time (but for a second 0 of no minute)"""
    if known in (4, 5) and second == 0:
        return
    d = m21.metadata.Date()
    d.year = year
    d.month = 5
    d.day = day
    if known % 2:
        d.hour = hour
        d.hourError = MEAN[e]
    if known // 2 % 2:
        d.minute = minute
    if known // 4:
        d.second = second
        d.secondError = MEAN[e]
    back = M21Utilities._dateFromString(M21Utilities._stringFromDate(d))
    assert back is not None
    assert fields(back) == fields(d)
    assert errors(back) == errors(d)


@P.lemma(y=Int(0), bce=OneOf('', '@'), e0=OneOf(*MEAN), m=Int(0, 99), e1=OneOf(None, *MEAN), wide=Bool(), sp=OneOf('', ' '), note=PRIM,
         targets=[U + '_dateFromString', U + '_stripDateError'])
def date_text(y, bce, e0, m, e1, wide, sp):
    """a date text is its year (with @: before the common era), month and day, each with its certainty"""
    text = bce + str(y) + e0
    if e1 is not None:
        text = text + '/' + sp + ('0' if wide else '') + str(m) + e1
    d = M21Utilities._dateFromString(text)
    assert d is not None
    assert d.year == (-y if bce else y)
    assert d.yearError == MEAN[e0]
    assert d.month == (None if e1 is None else m)
    assert d.monthError == (None if e1 is None else MEAN[e1])
    assert d.day is None and d.hour is None and d.minute is None and d.second is None


@P.lemma(word=Str(excl='0123456789-+_.~?xz/@: \u0660', alpha='abc', nonempty=True), pre=OneOf('', '12/', '1999/5/', 'a'), note=PRIM
         + '; the text holds no digits of any script', targets=[U + '_dateFromString'])
def not_a_date(word, pre):
    """a text with a part that is no number is no date"""
    assert M21Utilities._dateFromString(pre + word) is None


KINDS = ('single', '~', '?', '<', '>', '-', '^', '|', '||')


@P.lemma(y1=Int(0), y2=Int(0), y3=Int(0), kind_=OneOf(*KINDS), e=OneOf(*ERR), bce=OneOf('', '@'), note=PRIM,
         targets=[U + 'm21DatePrimitiveFromString', U + 'stringFromM21DateObject', U + '_stringFromDate', U + '_dateFromString'])
def date_kinds(y1, y2, y3, kind_, e, bce):
    """single, approximate, uncertain, before, after, between and alternative dates are told apart, hold exactly their dates and are
    written back as the same text"""
    a = bce + str(y1) + e
    b = str(y2)
    c = str(y3)
    if bce and y1 == 0:
        return
    text = {'single': a, '~': '~' + a, '?': '?' + a, '<': '<' + a, '>': '>' + a, '-': a + '-' + b, '^': a + '^' + b, '|': a + '|' + b,
            '||': a + '|' + b + '|' + c}[kind_]
    d = M21Utilities.m21DatePrimitiveFromString(text)
    assert d is not None
    if kind_ in ('single', '~', '?'):
        assert isinstance(d, m21.metadata.DateSingle)
        assert d.relevance == {'single': 'certain', '~': 'approximate', '?': 'uncertain'}[kind_]
    elif kind_ in ('<', '>'):
        assert isinstance(d, m21.metadata.DateRelative)
        assert d.relevance == ('prior' if kind_ == '<' else 'after')
    elif kind_ in ('-', '^'):
        assert isinstance(d, m21.metadata.DateBetween)
    else:
        assert isinstance(d, m21.metadata.DateSelection)
        assert d.relevance == 'or'
    assert len(d._data) == {'-': 2, '^': 2, '|': 2, '||': 3}.get(kind_, 1)
    assert d._data[0].year == (-y1 if bce else y1) and d._data[0].yearError == MEAN[e]
    if len(d._data) > 1:
        assert d._data[1].year == y2
    if len(d._data) > 2:
        assert d._data[2].year == y3
    assert M21Utilities.stringFromM21DateObject(d) == (a + '-' + b if kind_ == '^' else text)


@P.lemma(year=Int(0), month=Int(0), day=Int(0), dated=Bool(), pre=OneOf('', '<', '~', '1750-', '1750|'), note=PRIM,
         targets=[U + 'm21DatePrimitiveFromString'])
def impossible_dates(year, month, day, dated, pre):
    """a date that no calendar has is left as text: it raises no error"""
    d = M21Utilities.m21DatePrimitiveFromString(pre + str(year) + '/' + str(month) + ('/' + str(day) if dated else ''))
    possible = 1 <= month <= 12 and (not dated or 1 <= day <= 31 and not (day == 31 and month in (4, 6, 9, 11))
                                     and not (month == 2 and (day > 29 or day == 29 and year % 4 != 0)))
    assert (d is not None) == possible


RANGES = ('single', '~', '?', '<', '>', '^', '|')


@P.lemma(y1=Int(0), y2=Int(0), k1=OneOf(*RANGES), k2=OneOf(*RANGES), note=PRIM,
         targets=[U + 'm21DatePrimitiveRangeFromString', U + 'stringFromM21DatePrimitiveRange', U + 'edtfNestedDateRangeFromString'])
def date_ranges(y1, y2, k1, k2):
    """a range between any two kinds of dates (such as birth and death) reads as these two dates and is written back as the same text"""
    a = {'single': '', '^': '', '|': ''}.get(k1, k1) + str(y1) + {'^': '^7', '|': '|8'}.get(k1, '')
    b = {'single': '', '^': '', '|': ''}.get(k2, k2) + str(y2) + {'^': '^9', '|': '|3'}.get(k2, '')
    start, end = M21Utilities.m21DatePrimitiveRangeFromString(a + '-' + b)
    assert start is not None and end is not None
    sa = M21Utilities.m21DatePrimitiveFromString(a)
    sb = M21Utilities.m21DatePrimitiveFromString(b)
    assert type(start) is type(sa) and start.relevance == sa.relevance
    assert type(end) is type(sb) and end.relevance == sb.relevance
    assert start._data[0].year == y1
    assert end._data[0].year == y2
    assert len(start._data) == len(sa._data) and len(end._data) == len(sb._data)
    assert M21Utilities.stringFromM21DatePrimitiveRange(start, end) == a + '-' + b


ISO = {'': '', 'x': '~', 'z': '?'}


@P.lemma(year=Int(0), e0=OneOf(*ERR), month=Int(1, 12), e1=OneOf(None, *ERR), day=Int(1, 28), e2=OneOf(None, *ERR), edtf=Bool(), note=PRIM,
         targets=[U + 'isoDateFromM21Date', U + 'm21DateFromIsoDate'])
def iso_dates(year, e0, month, e1, day, e2, edtf):
    """a date has the ISO form YYYY-MM-DD as far as it is known without gaps; certainty is written in EDTF only; it reads back the same"""
    d = parsed(year, e0, month, e1, day, e2)
    text = M21Utilities.isoDateFromM21Date(d, edtf)
    if e1 is None:
        e2 = None
    sure = e0 == '' and e1 in (None, '') and e2 in (None, '')
    if not edtf and not sure:
        assert text == ''
        return
    want = f'{year:04d}' + ISO[e0]
    if e1 is not None:
        want = want + '-' + f'{month:02d}' + ISO[e1]
        if e2 is not None:
            want = want + '-' + f'{day:02d}' + ISO[e2]
    assert text == want
    back = M21Utilities.m21DateFromIsoDate(text)
    assert back is not None
    assert same(back, parsed(year, e0, month, e1, day, e2))


@P.lemma(year=Int(0, 9999), hour=Int(0, 23), minute=Int(0, 59), second=Int(0, 59), note=PRIM,
         targets=[U + 'isoDateFromM21Date', U + 'm21DateFromIsoDate'])
def iso_times(year, hour, minute, second):
    """a date with a time of day has the ISO form YYYY-MM-DDThh:mm:ss and reads back the same"""
    d = m21.metadata.Date(year=year, month=2, day=3, hour=hour, minute=minute, second=second)
    text = M21Utilities.isoDateFromM21Date(d)
    assert text == f'{year:04d}-02-03T{hour:02d}:{minute:02d}:{second:02d}'
    back = M21Utilities.m21DateFromIsoDate(text)
    assert back is not None
    assert same(back, d)


@P.lemma(y1=Int(0), y2=Int(0), m=OneOf(None, 4), kind_=OneOf('certain', 'approximate', 'uncertain', 'prior', 'onorbefore', 'after',
                                                              'onorafter', 'between', 'or', 'and'), note=PRIM,
         targets=[U + 'isoDateFromM21DatePrimitive', U + 'm21DatePrimitiveFromIsoDate', U + 'm21DateListFromIsoDateList', U + 'isoDateFromM21Date'])
def edtf_dates(y1, y2, m, kind_):
    """every kind of date has an EDTF text that reads back as the same kind and the same dates; ISO attributes say the same where ISO can"""
    a = m21.metadata.Date(year=y1, month=m)
    b = m21.metadata.Date(year=y2)
    if kind_ in ('certain', 'approximate', 'uncertain'):
        d = m21.metadata.DateSingle(a, relevance=kind_)
    elif kind_ in ('prior', 'onorbefore', 'after', 'onorafter'):
        d = m21.metadata.DateRelative(a, relevance=kind_)
    elif kind_ == 'between':
        d = m21.metadata.DateBetween([a, b])
    else:
        d = m21.metadata.DateSelection([a, b], relevance=kind_)
    ta = f'{y1:04d}' + ('-04' if m else '')
    tb = f'{y2:04d}'
    iso = M21Utilities.isoDateFromM21DatePrimitive(d)
    want = {'certain': {'isodate': ta}, 'prior': {'notafter': ta}, 'onorbefore': {'notafter': ta}, 'after': {'notbefore': ta},
            'onorafter': {'notbefore': ta}, 'between': {'startdate': ta, 'enddate': tb}}.get(kind_, {})
    assert iso == want
    text = M21Utilities.isoDateFromM21DatePrimitive(d, edtf=True)['edtf']
    back = M21Utilities.m21DatePrimitiveFromIsoDate(text)
    assert back is not None
    assert type(back) is type(d)
    assert back.relevance == {'onorbefore': 'prior', 'onorafter': 'after'}.get(kind_, kind_)
    assert len(back._data) == len(d._data)
    assert same(back._data[0], a)
    if len(d._data) > 1:
        assert same(back._data[1], b)


@P.lemma(good=Int(0), bad=OneOf('', 'x', 'abc', '-044', '1999-14', '12:99:00', '2000-02-30'), form=OneOf('/', '[..', '[,', '{,', '../', '/..', '1', '~'),
         first=Bool(), note=PRIM, targets=[U + 'm21DatePrimitiveFromIsoDate', U + 'm21DateListFromIsoDateList'])
def malformed_iso(good, bad, form, first):
    """an ISO or EDTF text with a part that is no date is no date: no part of it is silently dropped"""
    a = bad if first else str(good)
    b = str(good) if first else bad
    text = {'/': a + '/' + b, '[..': '[' + a + '..' + b + ']', '[,': '[' + a + ',' + b + ']', '{,': '{' + a + ',' + b + '}', '../': '../' + bad,
            '/..': bad + '/..', '1': bad, '~': bad + '~'}[form]
    assert M21Utilities.m21DatePrimitiveFromIsoDate(text) is None


# ---------------------------------------------------------------- reference records

LANG = Str(only='abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ', nonempty=True, alpha='enFR')


KEYS = tuple(M21Utilities.validHumdrumReferenceKeys)


@P.lemma(base=OneOf(*KEYS, 'COX', 'com', 'YYY-viaf', ''), n=Opt(Int(0)), value=Str(alpha='ab c'), note=PRIM, targets=[F + '_parseReferenceItem'])
def reference_keys(base, n, value):
    """a reference key is its name and an optional number"""
    key, text, std = HumdrumFile._parseReferenceItem(base + ('' if n is None else str(n)), value)
    assert key == base
    assert str(text) == value
    assert text.language is None and not text.isTranslated
    assert std == (base in KEYS)


@P.lemma(base=OneOf('COM', 'OTL', 'ODT', 'zz'), n=Opt(Int(0)), at=OneOf('@', '@@'), lang=LANG, value=Str(alpha='ab c'), note=PRIM,
         targets=[F + '_parseReferenceItem'])
def reference_languages(base, n, at, lang, value):
    """a reference key has an optional language (@ translated, @@ original)"""
    key, text, std = HumdrumFile._parseReferenceItem(base + ('' if n is None else str(n)) + at + lang, value)
    assert key == base
    assert str(text) == value
    assert text.language == lang.lower()
    assert bool(text.isTranslated) == (at == '@')
    assert std == (base in KEYS)


NAMES = tuple(k for k, v in M21Utilities.humdrumReferenceKeyToM21MetadataPropertyUniqueName.items() if v)


@P.lemma(base=OneOf(*NAMES), idx=Int(0), value=Str(excl='\n', alpha='ab :1'), note=PRIM,
         targets=[C + 'm21MetadataItemToHumdrumReferenceLineStr', C + 'm21UniqueNameToHumdrumKeyWithoutIndexOrLanguage',
                  C + 'm21MetadataItemToHumdrumKeyWithoutIndex', U + 'm21MetadataValueToString'])
def reference_records(base, idx, value):
    """a metadata item that Humdrum has a key for is written as the reference record of that key, with its number and its text"""
    name = M21Utilities.humdrumReferenceKeyToM21MetadataPropertyUniqueName[base]
    text = m21.metadata.Text(value)
    line = M21Convert.m21MetadataItemToHumdrumReferenceLineStr(idx, name, text)
    key = base + (str(idx) if idx else '')
    assert line == '!!!' + key + ':' + (' ' + value if value != '' else '')
    assert M21Convert.m21MetadataItemToHumdrumKeyWithoutIndex(name, text) == base
    back, again, std = HumdrumFile._parseReferenceItem(key, value)
    assert back == base and str(again) == value and std


@P.lemma(form=OneOf('composer', 'alternativeTitle', 'humdrum:AGN', 'humdrum:OTL', 'name'), idx=Int(0), value=Str(excl='\n', alpha='ab :1'),
         lang=Opt(Str(only='abcdefghijklmnopqrstuvwxyz', nonempty=True, alpha='enfr')), tr=Bool(), who=Bool(), note=PRIM,
         targets=[C + 'm21MetadataItemToHumdrumReferenceLineStr', C + 'm21MetadataItemToHumdrumKeyWithoutIndex',
                  C + 'humdrumMetadataItemToHumdrumReferenceLineStr', U + 'stringFromM21Contributor', U + 'm21MetadataValueToString'])
def record_languages(form, idx, value, lang, tr, who):
    """the language of a text or a person is written with it (@@ the original language, @ a translation), whether its key is standard or not"""
    text = m21.metadata.Text(value, language=lang, isTranslated=tr)
    item = m21.metadata.Contributor(name=text, role='performer') if who else text
    base = {'composer': 'COM', 'alternativeTitle': 'OTA', 'humdrum:AGN': 'AGN', 'humdrum:OTL': 'OTL', 'name': 'name'}[form]
    num = str(idx) if idx and form != 'name' else ''
    suffix = '' if lang is None else ('@' if tr else '@@') + lang.upper()
    line = M21Convert.m21MetadataItemToHumdrumReferenceLineStr(idx, form, item)
    assert line == '!!!' + base + num + suffix + ':' + (' ' + value if value != '' else '')
    other = M21Convert.humdrumMetadataItemToHumdrumReferenceLineStr(idx, 'MPN', item)
    assert other == '!!!MPN' + (str(idx) if idx else '') + suffix + ':' + (' ' + value if value != '' else '')
    if not who and form in ('composer', 'alternativeTitle'):
        assert M21Convert.m21MetadataItemToHumdrumKeyWithoutIndex(form, item) == base + suffix


@P.lemma(key=Str(excl=': \t\n\r', nonempty=True, alpha='abX1@'), value=Str(excl='\n', alpha='ab :1'), pre=OneOf('raw:', 'humdrumraw:'), idx=Int(0), note=PRIM,
         targets=[C + 'm21MetadataItemToHumdrumReferenceLineStr'])
def free_records(key, value, pre, idx):
    """a record whose key is not known is kept as it was written"""
    line = M21Convert.m21MetadataItemToHumdrumReferenceLineStr(idx, pre + key, value)
    assert line == '!!!' + key + ':' + (' ' + value if value != '' else '')


@P.lemma(n=Opt(Int(0)), ins=Int(0), tail=Str(excl='0123456789\n', alpha='@EN-x'), base=OneOf('COM', 'OTL', 'xyz', '12a'), note=PRIM,
         targets=[F + '_incrementOrInsertNumberInReferenceKey', F + '_replaceOrInsertNumberInReferenceKey'])
def numbered_keys(n, ins, tail, base):
    """numbering a reference key puts the number after its name, whether there was one or not"""
    k = base + ('' if n is None else str(n)) + tail
    assert HumdrumFile._incrementOrInsertNumberInReferenceKey(k, ins) == base + str(ins if n is None else n + 1) + tail
    assert HumdrumFile._replaceOrInsertNumberInReferenceKey(k, ins) == base + str(ins) + tail


DATED = tuple(M21Convert.humdrumReferenceKeyToEncodingScheme) + M21Utilities.customHumdrumReferenceKeysThatAreDates
PLAIN = tuple(k for k in KEYS if k not in DATED and k not in ('OMD', 'ACO'))
TEXTS = ('Bach, J. S.', 'x: y', 'Äé', 'a  b', '12', '1720/03', 'Op. 1', '@', 'a\\nb', 'Tom & Jerry', '"q"', "l'x", '[a]', '(b)', '!', '*x', '=1', '...')
MARKS = ('', '1', '2', '@FR', '@@DE', '2@RU', '13')


@native
def survivors(seed):
    from specs._e2e import read_krn, write_krn
    rng = random.Random(seed)
    lines = []
    want = []
    for i in range(rng.randint(1, 7)):
        k = rng.choice(PLAIN + ('zyx', 'COM-url', 'EED'))
        v = rng.choice(TEXTS) + ' ' + str(i)
        mark = rng.choice(MARKS)
        lines.append('!!!' + k + mark + ': ' + v)
        if k in KEYS:
            want.append((k, re.sub('[0-9]', '', mark), v))
        else:
            want.append((k + mark, '', v))
    cut = rng.randint(0, len(lines))
    text = '\n'.join(lines[:cut] + ['**kern', '4c', '*-'] + lines[cut:]) + '\n'
    out = write_krn(read_krn(text)).split('\n')
    got = []
    seen = set()
    for line in out:
        m = re.fullmatch(r'!!!([^:]*?)([0-9]*)(@@?[A-Z]+)?: (.*)', line)
        if line.startswith('!!!') and not line.startswith('!!!!') and m and not m[1].startswith(('RDF', 'system-decoration', 'software')):
            if m[1] in KEYS:
                got.append((m[1], m[3] or '', m[4]))
            else:
                got.append((m[1] + m[2] + (m[3] or ''), '', m[4]))
            assert (m[1], m[2], m[3]) not in seen or m[1] in KEYS or m[1] == 'zyx', line
            seen.add((m[1], m[2], m[3]))
    assert not [w for w in want if w not in got], (text, [w for w in want if w not in got], [l for l in out if l.startswith('!!!')])
    assert not [g for g in got if g not in want], (text, [g for g in got if g not in want])


@P.bounded('sets of up to 7 reference records with 18 texts, 7 numbers and languages, before and after the notes', seed=Int(0, 10 ** 6), quick=60, thorough=1500,
           targets=[F + '_createScoreMetadata', 'converter21.humdrum.humdrumwriter:HumdrumWriter._addHeaderRecords'])
def records_survive(seed):
    """reading a file and writing it keeps every reference record (dates aside) with its key, language and text, and makes up none"""
    survivors(seed)


@native
def date_survivor(key, value, mark):
    from specs._e2e import read_krn, write_krn
    text = '!!!' + key + mark + ': ' + value + '\n**kern\n4c\n*-\n'
    key = 'MDT' if key == 'MRD' else key
    out = [x for x in write_krn(read_krn(text)).split('\n') if x.startswith('!!!' + key)]
    assert out == ['!!!' + key + ': ' + value] or mark and out == ['!!!' + key + mark + ': ' + value], (text, out)


DATES = ('1720', '1720/03', '1720/03/04', '~1720', '?1720', '1720x', '1720/03z', '<1720', '>1720/05', '1720-1730', '1720|1721|1723', '@44', '1999/14', '1999/02/30',
         'about 1700', 'a', '1720/01/02/00:30:00', '>1999/12', '1720/05/01-1721/02/03', '10000', '1720-', '1720?x', 'May 1720')


@P.bounded('every key of a date, with 23 texts, with and without a language', key=OneOf(*dict.fromkeys(DATED)), value=OneOf(*DATES), mark=OneOf('', '@FR'), quick=80, thorough=700,
           targets=[F + '_createScoreMetadata', C + 'humdrumMetadataValueToM21MetadataValue'])
def dates_survive(key, value, mark):
    """reading a file and writing it keeps the date records with the text of their dates, also texts that are no date"""
    date_survivor(key, value, mark)


ROLES = {'performer': 'MPN', 'suspected performer': 'MPS', 'suspectedPerformer': 'MPS', 'publication editor': 'PED', 'publicationEditor': 'PED', 'source editor': 'PED',
         'sourceEditor': 'PED', 'poet': 'LYR', 'composer': 'COM', 'attributed composer': 'COA', 'attributedComposer': 'COA', 'suspected composer': 'COS',
         'suspectedComposer': 'COS', 'composer alias': 'COL', 'lyricist': 'LYR', 'librettist': 'LIB', 'arranger': 'LAR', 'orchestrator': 'LOR', 'translator': 'TRN',
         'conductor': 'MCN', 'electronic editor': 'EED', 'electronicEncoder': 'ENC', 'electronic encoder': 'ENC', 'original editor': 'YOE', 'originalEditor': 'YOE',
         'piper': '', 'second piper': '', '': ''}


@P.lemma(role=OneOf(*ROLES), note=PRIM, targets=[U + 'contributorRoleToHumdrumReferenceKey', U + 'spaceDelimitedToCamelCase', U + 'camelCaseToSpaceDelimited'])
def roles(role):
    """a contributor's role has the reference key of that role, whether written in words or in camel case"""
    assert M21Utilities.contributorRoleToHumdrumReferenceKey(role) == ROLES[role]


@P.lemma(base=OneOf(*KEYS), note=PRIM, targets=[C + 'm21UniqueNameToHumdrumKeyWithoutIndexOrLanguage'])
def key_tables(base):
    """no two reference keys share a music21 name, and the key of a name is the key the name was read for"""
    name = M21Utilities.humdrumReferenceKeyToM21MetadataPropertyUniqueName[base]
    if name:
        assert M21Convert.m21UniqueNameToHumdrumKeyWithoutIndexOrLanguage(name) == base
    else:
        assert M21Convert.m21UniqueNameToHumdrumKeyWithoutIndexOrLanguage('humdrumraw:' + base) == base
