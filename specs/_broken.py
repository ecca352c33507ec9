"""What makes the lines of a Humdrum file fit each other (from the definition of the format), and ways to break them."""
import random
from pyvc.api import native
from converter21.humdrum.humdrumfilecontent import HumdrumFileContent
from converter21 import HumdrumConverter
from specs._e2e import quiet


def spines_after(fields):
    """the width of the next line and the fields there that begin a spine; None when a manipulator lacks its partner"""
    width, new, i = 0, [], 0
    while i < len(fields):
        x = fields[i]
        if x == '*v':
            j = i
            while j < len(fields) and fields[j] == '*v':
                j += 1
            if j == i + 1:
                return None
            width += 1
            i = j
            continue
        if x == '*x':
            if i + 1 >= len(fields) or fields[i + 1] != '*x':
                return None
            width += 2
            i += 2
            continue
        if x == '*^':
            width += 2
        elif x == '*+':
            width += 2
            new.append(width - 1)
        elif x != '*-':
            width += 1
        i += 1
    return width, new


def fits(lines):
    """None when every line has the fields its spines call for, else what is wrong"""
    width, new = None, []
    for k, line in enumerate(lines):
        if line == '' or line.startswith('!!'):
            continue
        fields = line.split('\t')
        if width is None:
            for x in fields:
                if not x.startswith('**'):
                    return 'no types'
            width = len(fields)
            continue
        if len(fields) != width:
            return 'width'
        for j, x in enumerate(fields):
            if (j in new) != x.startswith('**'):
                return 'types'
        new = []
        if fields[0].startswith('*'):
            after = spines_after(fields)
            if after is None:
                return 'partner'
            width, new = after
    return 'no spines' if width is None else None


def typed(lines):
    """the first line of spines gives each of them a type (and no earlier line stands in its way)"""
    for line in lines:
        if '**' in line and not line.startswith('!!'):
            return line.count('**') == len(line.split('\t'))
    return False


def in_order(times):
    return all(a <= b for a, b in zip(times, times[1:]))


@native
def corrupt(seed, lines):
    r = random.Random(seed)
    out = list(lines)
    k = r.choice([i for i, x in enumerate(out) if x and not x.startswith('!!')])
    f = out[k].split('\t')
    how = r.choice(['drop', 'add', 'add', 'manip', 'line', 'twice', 'early'])
    if how == 'drop' and len(f) > 1:
        f.pop(r.randrange(len(f)))
    elif how == 'add':
        for _ in range(r.choice([1, 1, 2])):
            f.insert(r.randrange(len(f) + 1), r.choice(['.', '4c', '*', '=1', '!']))
    elif how == 'manip':
        f[r.randrange(len(f))] = r.choice(['*v', '*^', '*x', '*+', '*-'])
    elif how == 'line':
        del out[k]
        return out
    elif how == 'twice':
        out.insert(k, out[k])
        return out
    elif how == 'early':
        out.insert(r.choice([0, 1]), r.choice(['4c', '=1', '*M3/4', '!hello']))
        return out
    out[k] = '\t'.join(f)
    return out


@native
def quiet_read(lines, accept):
    """the file; None when reading it raised"""
    with quiet():
        f = HumdrumFileContent(acceptSyntaxErrors=accept)
        f.isQuiet = True
        try:
            f.readString('\n'.join(lines))
        except Exception:
            return None
        return f


@native
def score_of(lines, accept):
    with quiet():
        c = HumdrumConverter()
        try:
            return c.parseData('\n'.join(lines), acceptSyntaxErrors=accept)
        except Exception:
            return None
