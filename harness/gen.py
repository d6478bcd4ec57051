"""Generators of segmentations, boundary strings, options, names and datasets."""
from harness import dictionary

BIG = 10 ** 18


def mined_int(s, lo, hi):
    options = [i for i in dictionary.INTS if lo <= i <= hi]
    return s.choice(options) if options else lo


def notable(s, usual, hi, den=12, lo=0):
    """usual or, where the sources hold greater constants than the package used to, sometimes one of these."""
    options = [i for i in dictionary.SIZES if lo <= i <= hi]
    if options and s.bool(1, den):
        return s.choice(options)
    return usual


def size(s, lo=1, hi=400):
    """A length: mostly small, sometimes medium, large or near a mined constant."""
    kind = s.weighted([(52, 0), (30, 1), (12, 2), (3, 3), (3, 4)])
    if kind == 0:
        v = lo + s.draw(8)
    elif kind == 1:
        v = lo + s.draw(24)
    elif kind == 2:
        v = lo + s.draw(90)
    elif kind == 3:
        v = lo + s.draw(max(1, hi - lo + 1))
    else:
        v = mined_int(s, lo, hi)
    if hi > 100 and s.bool(1, 600):
        return s.choice((1000, 1024, 1300, 2047, 3000, 4500))
    return notable(s, min(v, hi), max(6 * hi, 2200) if hi > 100 else hi, lo=lo)


def small_size(s, lo=1, hi=14):
    return lo + s.draw(min(hi - lo + 1, s.choice((4, 8, hi - lo + 1))))


# -- single-type segmentations ------------------------------------------------
def boundaries(s, n):
    """Sorted boundary positions among the n-1 gaps of n units."""
    gaps = n - 1
    if gaps <= 0:
        return []
    kind = s.weighted([(6, 'density'), (2, 'few'), (1, 'none'), (1, 'all'), (1, 'blocks'), (1, 'ends'), (1, 'cluster')])
    if kind == 'none':
        return []
    if kind == 'all':
        return list(range(gaps))
    if kind == 'few':
        return sorted({s.draw(gaps) for _ in range(s.int(1, 3))})
    if kind == 'blocks':
        k = s.int(1, max(1, min(gaps, 12)))
        return list(range(k - 1, gaps, k))
    if kind == 'ends':
        out = {s.choice((0, gaps - 1)), s.draw(gaps)}
        if s.bool():
            out |= {0, gaps - 1}
        return sorted(out)
    if kind == 'cluster':
        c = s.draw(gaps)
        return sorted({p for p in range(c, min(gaps, c + 6)) if s.bool(2, 3)})
    den = s.choice((2, 3, 5, 9))
    return [p for p in range(gaps) if s.draw(den) == den - 1]


def perturbed(s, gaps, bounds):
    """Another segmentation of the same text close to one given."""
    out = set()
    for p in bounds:
        action = s.weighted([(5, 'keep'), (4, 'shift'), (1, 'drop')])
        if action == 'keep':
            out.add(p)
        elif action == 'shift':
            q = p + s.choice((1, -1, 2, -2, 3, -3, 4, -4))
            if s.bool(1, 10):
                q = p + s.choice((1, -1)) * notable(s, s.int(1, 40), 300, 2)
            if 0 <= q < gaps:
                out.add(q)
    if gaps:
        for _ in range(s.weighted([(4, 0), (2, 1), (1, 2)])):
            out.add(s.draw(gaps))
    return sorted(out)


def masses_of(n, bounds):
    out, last = [], -1
    for p in bounds:
        out.append(p - last)
        last = p
    out.append(n - 1 - last)
    return out


def second(s, n, first):
    kind = s.weighted([(5, 'near'), (4, 'independent'), (1, 'same')])
    if kind == 'same':
        return list(first)
    if kind == 'near':
        return perturbed(s, n - 1, first)
    return boundaries(s, n)


def masses(s, lo=1, hi=400):
    n = size(s, lo, hi)
    return masses_of(n, boundaries(s, n))


def long_pairs():
    """A few pairs of very long texts."""
    for n in (5000, 12000):
        ones = [1] * n
        yield ones, list(ones)
        yield ones, ones[:-2] + [2]
        yield ones, [n]
        yield [2] * (n // 2), [1] + [2] * (n // 2 - 1) + [1]
        yield [3, 4] * (n // 7), [4, 3] * (n // 7)


def mass_pair(s, lo=1, hi=400):
    n = size(s, lo, hi)
    a = boundaries(s, n)
    return masses_of(n, a), masses_of(n, second(s, n, a))


# -- formats --------------------------------------------------------------
ALIKE = ['a', 'A', 'a ', ' a', 'a\n', 'aa', u'\u00e1', u'a\u0301', u'\uff41', '1', 1, '01', '1.0', 'None', 'a\0', '-1', -1, 'True']


def labels(s, count):
    """count distinct segment labels (none of them 0)."""
    kind = s.weighted([(3, 'count'), (2, 'big'), (2, 'str'), (1, 'shuffled'), (1, 'negative'), (1, 'sparse'), (1, 'mixed'), (1, 'long'), (1, 'alike')])
    if kind == 'count':
        return list(range(1, count + 1))
    if kind == 'big':
        base = s.choice((256, 257, 1000, 10 ** 6, BIG))
        return [base + i for i in range(count)]
    if kind == 'str':
        return ['s%d' % i for i in range(count)]
    if kind == 'shuffled':
        return s.shuffled(range(1, count + 1))
    if kind == 'long':
        start = 'x' * notable(s, s.choice((5, 9, 17, 70)), 300, 2)
        return [start + '%d' % i for i in range(count)]
    if kind == 'alike':
        # labels that are equal but for case, spaces, form or type
        out = s.shuffled(ALIKE)[:count]
        return out + ['a%d' % i for i in range(count - len(out))]
    if kind == 'negative':
        return [-i - 1 for i in range(count)]
    if kind == 'mixed':
        return [('x%d' % i) if i % 2 else 300 + i for i in range(count)]
    step = s.int(2, 9)
    return [1 + i * step for i in range(count)]


def positions_of(masses_, labels_):
    out = []
    for m, l in zip(masses_, labels_):
        out.extend([l] * m)
    return out


def nltk_of(masses_, boundary='1', other='0'):
    return boundary.join(other * (m - 1) for m in masses_)


def sets_of(masses_):
    out = []
    for m in masses_:
        out.extend([[]] * (m - 1))
        out.append([1])
    out.pop()
    return out


# -- multi-type boundary strings -------------------------------------------
def alphabet(s, maximum=6):
    kind = s.weighted([(4, 'ordinal'), (2, 'gaps'), (1, 'signed'), (1, 'huge'), (1, 'one'), (1, 'mined')])
    k = notable(s, s.int(1, maximum), 40, 30)
    if kind == 'ordinal':
        return list(range(1, k + 1))
    if kind == 'one':
        return [s.choice((1, 2, 3, 0, -1, 257, 10 ** 6))]
    if kind == 'gaps':
        out, v = [], s.int(0, 3)
        for _ in range(k):
            out.append(v)
            v += s.int(1, 5)
        return out
    if kind == 'signed':
        base = -s.int(0, 4)
        return [base + i for i in range(k)]
    if kind == 'huge':
        base = s.choice((257, 1000, 10 ** 6, 10 ** 12))
        step = s.choice((1, 1, 7, 300))
        return [base + step * i for i in range(k)]
    return sorted({mined_int(s, -50, 10 ** 6) for _ in range(k)} | {1})


def _fact(n):
    r = 1
    for i in range(2, n + 1):
        r *= i
    return r


def _tame(a, b, limit):
    """Drop one-sided types at positions whose pairings would be too many to try."""
    for i in range(len(a)):
        while _fact(len(set(a[i]) - set(b[i]))) * _fact(len(set(b[i]) - set(a[i]))) > limit:
            only_a, only_b = set(a[i]) - set(b[i]), set(b[i]) - set(a[i])
            if len(only_a) >= len(only_b):
                a[i] = [t for t in a[i] if t != max(only_a)]
            else:
                b[i] = [t for t in b[i] if t != max(only_b)]


def string_pair(s, lo=0, hi=60, maximum=6):
    """Two boundary strings of equal length, positions as sorted lists of types."""
    kind = s.weighted([(10, 0), (5, 1), (1, 2)])
    n = lo + (s.draw(7) if kind == 0 else s.draw(17) if kind == 1 else s.draw(hi - lo + 1))
    n = notable(s, min(n, hi), 600 if hi > 30 else 2 * hi, 20, lo) if lo < hi else hi
    types = alphabet(s, maximum)
    dens = s.choice((2, 3, 4, 8))
    pos = s.choice((1, 2, 2, 4))

    def one():
        return [sorted(t for t in types if s.draw(dens) == dens - 1) if s.draw(pos) == pos - 1 else []
                for _ in range(n)]
    a = one()
    style = s.weighted([(6, 'edit'), (4, 'independent'), (1, 'same')])
    if style == 'independent':
        b = one()
    elif style == 'same':
        b = [list(p) for p in a]
    else:
        b = [set() for _ in range(n)]
        for i, p in enumerate(a):
            for t in p:
                act = s.weighted([(4, 'keep'), (4, 'shift'), (2, 'swap'), (1, 'drop'), (1, 'dup')])
                if act in ('keep', 'dup'):
                    b[i].add(t)
                if act in ('shift', 'dup'):
                    j = i + s.choice((1, -1, 2, -2, 3, -3, 4, -5))
                    if 0 <= j < n:
                        b[j].add(t)
                if act == 'swap':
                    b[i].add(s.choice(types))
        if n:
            for _ in range(s.weighted([(4, 0), (2, 1), (2, 2)])):
                b[s.draw(n)].add(s.choice(types))
        b = [sorted(p) for p in b]
    if n and s.bool(1, 6):      # a type that occurs once
        k = n - 1 - s.draw(min(n, 4)) if s.bool() else s.draw(n)
        new = s.choice((max(types) + 1, min(types) - 1))
        for one in s.choice(((a,), (b,), (a, b))):
            one[k] = sorted(set(one[k]) | {new})
    _tame(a, b, s.weighted([(8, 40), (6, 150), (1, 720)]))
    return a, b


def n_t(s, hi=9):
    kind = s.weighted([(5, 2), (9, 0), (1, 1), (1, 3)])
    if kind == 2:
        return 2
    if kind == 0:
        return notable(s, s.int(1, 6), 300)
    if kind == 1:
        return s.int(1, hi)
    return s.choice((12, 20, 40)) if s.bool() else mined_int(s, 1, 40)


WEIGHTS = ('default', 'a', 's', 't', 'st')


def weight(s):
    return s.weighted([(4, 'default'), (2, 'st'), (1, 's'), (1, 't')])


# -- names ----------------------------------------------------------------
PLAIN = ['a', 'b', 'c', 'd', 'e', 'f']
ODD = ['A', 'a b', ' ', '1', '2', '10', '-', '.', 'a.b', u'\u00e9', u'e\u0301', u'\u4e2d\u6587',
       'None', 'True', 'coder', 'item', 'x' * 40, '#', '%s', '{0}', "it's", '"q"', '\\', '/', 'a:b', '*', 'nan',
       '__class__', 'keys', '0', '01', '_', u'\U0001f600', '', 'ab', 'ba', '(', 'a;b', 'a|b', 'None,'[:4], '\t']


def name(s, extra=()):
    kind = s.weighted([(6, 'plain'), (4, 'odd'), (1, 'mined'), (1, 'number')])
    if notable(s, False, 4000, 40):
        return 'n' * notable(s, 1, 4000, 1)
    new = [x for x in dictionary.NEW_STRINGS if ',' not in x]
    if new and s.bool(1, 20):
        return s.choice(new)
    if kind == 'plain':
        return s.choice(PLAIN)
    if kind == 'odd':
        return s.choice(list(ODD) + list(extra))
    if kind == 'number':
        return 'n%d' % s.int(0, 300)
    options = [x for x in dictionary.STRINGS if ',' not in x]
    return s.choice(options) if options else 'a'


def names(s, count, extra=()):
    """count distinct names (distinct also as text)."""
    out = []
    while len(out) < count:
        n = name(s, extra)
        while n in out:
            n += '%d' % len(out)
        out.append(n)
    return out


def coder_names(s, count):
    """Distinct coders: names, or integers."""
    if s.bool(1, 6):
        base = s.choice((1, 0, 255, 256, 10 ** 9))
        return [base + i for i in range(count)]
    return names(s, count)


def crowd(s, lo, hi):
    """A number of coders or items: seldom beyond hi."""
    kind = s.weighted([(28, 0), (2, 1), (2, 2)])
    if kind == 0:
        return notable(s, s.int(lo, hi), 60, 40, lo)
    if kind == 1:
        return s.int(lo, hi + 7)
    return mined_int(s, lo, hi + 7)


# -- datasets: [[item, [[coder, masses], ...]], ...] --------------------------
def item_codings(s, n, coders):
    base = boundaries(s, n)
    out = []
    for i, c in enumerate(coders):
        out.append([c, masses_of(n, base if i == 0 else second(s, n, base))])
    return out


def group_of_items(s, lo, hi, coders, max_items):
    """Items and a function drawing their lengths, bounded so that all comparisons together stay affordable."""
    pairs = max(1, len(coders) * (len(coders) - 1) // 2)
    most = max(1, min(200 if len(coders) < 6 else 12, 2500 // pairs))
    items = names(s, min(most, notable(s, crowd(s, 1, max_items), most, 40, 1)))
    if len(coders) * len(items) > 30:
        hi = min(hi, 12)
    room = [max(0, 40000 // pairs - hi * len(items))]

    def length():
        most = min(1000 if len(coders) < 6 else 300, room[0])
        n = notable(s, min(lo + s.draw(s.choice((4, 12, hi - lo + 1))), hi), max(most, hi), 40, lo)
        if s.bool(1, 40):
            n = min(size(s, lo, 120), max(most, hi))
        room[0] -= n if n > hi else 0
        return n
    return items, length


def full_dataset(s, lo=1, hi=30, min_coders=2, max_coders=5, max_items=4):
    """Every coder codes every item."""
    coders = coder_names(s, crowd(s, min_coders, max_coders))
    items, length = group_of_items(s, lo, hi, coders, max_items)
    return [[item, item_codings(s, length(), s.shuffled(coders) if s.bool(1, 3) else coders)] for item in items]


def ragged_dataset(s, lo=1, hi=30, max_coders=5, max_items=4):
    """Items coded by varying groups of coders (possibly a single one)."""
    pool = coder_names(s, crowd(s, 1, max_coders))
    items, length = group_of_items(s, lo, hi, pool, max_items)
    out = []
    for item in items:
        n = length()
        group = s.subset(pool, 3, 4) or [s.choice(pool)]
        out.append([item, item_codings(s, n, s.shuffled(group) if s.bool(1, 3) else group)])
    return out
