"""P12 Pk, P13 WindowDiff, P14 window sizes."""
from __future__ import division
import itertools
import math
from decimal import Decimal
from fractions import Fraction
import segeval
from harness import gen, sut, model
from harness.core import Sub, require, fail, short, agree, num, near

FORMATS = ('mass', 'position', 'nltk')
ROUNDERS = ('round', 'floor', 'ceil', 'int', 'up', 'const', 'half-up', 'decimal', 'float')


def rounder(name):
    """(function given to the package, the same on Fractions)."""
    if name == 'round':
        return round, model.half_even
    if name == 'floor':
        return math.floor, math.floor
    if name == 'ceil':
        return math.ceil, math.ceil
    if name == 'int':
        return int, math.floor
    if name == 'up':
        return (lambda x: int(x) + 3), (lambda x: math.floor(x) + 3)
    if name == 'half-up':
        return (lambda x: int(Decimal(x) + Decimal('0.5'))), (lambda x: math.floor(x + Fraction(1, 2)))
    if name == 'decimal':
        return (lambda x: Decimal(math.floor(x))), math.floor
    if name == 'float':
        # as numpy's floor or that of Python 2 does
        return (lambda x: float(math.floor(x)) if x < 2 ** 50 else math.floor(x)), math.floor
    return (lambda x: 5), (lambda x: 5)


def gen_case(s):
    f = s.choice(FORMATS)
    a, b = gen.mass_pair(s, 1 if f != 'nltk' else 2, 300)
    n = sum(a)
    window = s.weighted([(4, 'auto'), (4, 'small'), (2, 'any'), (1, 'edge'), (1, 'mined')])
    if window == 'auto':
        k = None
    elif window == 'small':
        k = s.int(1, 6)
    elif window == 'any':
        k = s.int(1, n + 5)
    elif window == 'edge':
        k = max(1, n + s.int(-2, 2))
    else:
        k = gen.mined_int(s, 1, n + 5)
    return {'format': f, 'a': a, 'b': b, 'la': gen.labels(s, len(a)), 'lb': gen.labels(s, len(b)), 'k': k,
            'round': s.weighted([(3, 'round')] + [(1, r) for r in ROUNDERS[1:]]) if k is None else 'round',
            'lamprier': s.bool(2, 5), 'list': s.bool(1, 3), 'call': s.choice(('positional', 'keyword'))}


def enum_cases(tier):
    """All pairs of segmentations of few units, all window sizes up to one beyond the text."""
    top = 6 if tier == 'quick' else 8
    for n in range(1, top + 1):
        every = [gen.masses_of(n, [p for p in range(n - 1) if bits >> p & 1]) for bits in range(2 ** (n - 1))]
        for a in every:
            for b in every:
                for k in [None] + list(range(1, n + 2)):
                    yield {'format': 'mass', 'a': a, 'b': b, 'k': k, 'round': 'round', 'lamprier': (k or 0) % 2 == 0,
                           'list': False, 'call': 'positional'}
    for a, b in gen.long_pairs():
        for k in (None, 7) if len(b) > 9 else (7,):
            yield {'format': 'mass', 'a': a, 'b': b, 'k': k, 'round': 'round', 'lamprier': False, 'list': False, 'call': 'positional'}


def arguments(case):
    f = case['format']
    x = sut.encode(case['a'], f, case.get('la'), listy=case['list'])
    y = sut.encode(case['b'], f, case.get('lb'), listy=case['list'])
    kw = {}
    if f != 'mass' or case['list']:
        kw['boundary_format'] = sut.fmt(f)
    given, mirror = rounder(case['round'])
    k = case['k']
    if k is None:
        k = model.window_size([case['b']], mirror)
        if case['round'] != 'round':
            kw['fnc_round'] = given
    else:
        kw['window_size'] = k
    return x, y, kw, k


def invoke(fn, case, x, y, **kw):
    if case['call'] == 'keyword':
        return fn(hypothesis=x, reference=y, **kw)
    return fn(x, y, **kw)


def labels(case, k, bad, total):
    n = sum(case['a'])
    return ['auto' if case['k'] is None else 'given', case['format'], 'k>=n' if k >= n else 'k<n',
            'identical' if case['a'] == case['b'] else 'differ', 'lamprier' if case['lamprier'] else 'plain',
            case['round'], 'n>40' if n > 40 else 'n<=40',
            'zero' if bad == 0 else 'all' if bad == total else 'some', 'k odd' if k % 2 else 'k even']


def check_pk(case):
    x, y, kw, k = arguments(case)
    bad, total = model.pk_parts(case['a'], case['b'], k)
    value = Fraction(bad, total) if total else Fraction(0)
    v = near(invoke(segeval.pk, case, x, y, **kw), value, 'Pk')
    near(invoke(segeval.pk, case, x, y, one_minus=True, **kw), 1 - value, '1 - Pk')
    parts = invoke(segeval.pk, case, x, y, return_parts=True, **kw)
    require(len(parts) == 2, 'return_parts gave {0}', short(parts))
    near(parts[0], Fraction(bad), 'disagreements')
    near(parts[1], Fraction(total), 'windows')
    if case['a'] == case['b']:
        require(v == 0, 'Pk of identical segmentations is {0}', short(v))
    kw['window_size'] = k
    kw.pop('fnc_round', None)
    wd = num(segeval.window_diff(x, y, **kw))
    require(v <= wd + Fraction(1, 10 ** 20), 'Pk {0} exceeds WindowDiff {1} of equal window size', float(v), float(wd))
    require(0 <= v <= 1, 'Pk {0} outside [0, 1]', float(v))
    return case['a'] != case['b'] and total > 0, labels(case, k, bad, total)


def check_wd(case):
    x, y, kw, k = arguments(case)
    if case['lamprier']:
        kw['lamprier_et_al_2007_fix'] = True
    elif case['call'] == 'keyword':
        kw['lamprier_et_al_2007_fix'] = False
    bad, total = model.wd_parts(case['a'], case['b'], k, case['lamprier'])
    value = Fraction(bad, total) if total > 0 else Fraction(0)
    v = near(invoke(segeval.window_diff, case, x, y, **kw), value, 'WindowDiff')
    near(invoke(segeval.window_diff, case, x, y, one_minus=True, **kw), 1 - value, '1 - WindowDiff')
    parts = invoke(segeval.window_diff, case, x, y, return_parts=True, **kw)
    require(len(parts) == 2, 'return_parts gave {0}', short(parts))
    near(parts[0], Fraction(bad), 'differing windows')
    if total > 0:
        near(parts[1], Fraction(total), 'divisor')
    if case['a'] == case['b']:
        require(v == 0, 'WindowDiff of identical segmentations is {0}', short(v))
    require(0 <= v <= 1, 'WindowDiff {0} outside [0, 1]', float(v))
    return case['a'] != case['b'] and total > 0, labels(case, k, bad, total)


# -- P14 --------------------------------------------------------------------
KEYS = [1, '1', None, 'None', (1,), '', 0, 'items', u'\u00e9', 2.5]


def gen_sizes(s):
    kind = s.weighted([(4, 'one'), (4, 'items'), (3, 'nested')])
    r = s.weighted([(4, 'round')] + [(1, x) for x in ROUNDERS[1:]])

    form = s.choice(('mass', 'position'))

    def one(q):
        style = q.weighted([(4, 'plain'), (2, 'exact'), (1, 'wild')] + [(1, 'big')] * (form == 'mass'))
        if style == 'big':
            return q.many(lambda t: 10 ** t.int(9, 18) + t.int(0, 9), 1, 4)
        if style == 'plain':
            return gen.masses(q, 1, 200)
        if style == 'exact':        # means of the form k + 1/2
            m = q.int(1, 40)
            return [m] * q.int(1, 6) + ([m + 1] * q.int(0, 3) if q.bool() else [])
        return q.many(lambda t: t.choice((1, t.int(1, 9), t.int(1, 2000))), 1, 8)

    made = []

    def tree(q, depth):
        if depth == 0:
            made.append(made[q.draw(len(made))] if made and q.bool(1, 4) else one(q))
            return ['leaf', made[-1], gen.labels(q, 12)]
        return ['node', [tree(q, depth - 1 if q.bool(4, 5) else 0) for _ in range(q.int(1, 3))]]
    depth = 0 if kind == 'one' else 2 if kind == 'items' else s.int(1, 4)
    return {'tree': tree(s, depth), 'format': form, 'round': r, 'shared': s.bool(1, 3), 'list': s.bool(),
            'dataset': kind == 'items' and s.bool(), 'keys': 1 + s.draw(len(KEYS)) if s.bool(1, 3) else 0}


def build(tree, case, leaves, key='k', memo=None):
    if tree[0] == 'leaf':
        leaves.append(tree[1])
        if memo is not None and tuple(tree[1]) in memo:
            return memo[tuple(tree[1])]     # the same object in several places
        labels_ = tree[2] if len(tree[1]) <= len(tree[2]) else list(range(1, len(tree[1]) + 1))
        made = sut.encode(tree[1], case['format'], labels_, listy=case['list'])
        if memo is not None:
            memo[tuple(tree[1])] = made
        return made
    start = case.get('keys', 0)
    names = KEYS[start - 1:] + KEYS[:start - 1] if start else [key + str(i) for i in range(len(tree[1]))]
    return {names[i]: build(t, case, leaves, key + '.', memo) for i, t in enumerate(tree[1])}


def check_sizes(case):
    leaves = []
    arg = build(case['tree'], case, leaves, memo={} if case['shared'] else None)
    given, mirror = rounder(case['round'])
    kw = {}
    if case['round'] != 'round':
        kw['fnc_round'] = given
    if case['format'] != 'mass' or case['list']:
        kw['boundary_format'] = sut.fmt(case['format'])
    if case['dataset'] and all(t[0] == 'node' and all(u[0] == 'leaf' for u in t[1]) for t in case['tree'][1]):
        arg = segeval.Dataset(arg, boundary_format=sut.fmt(case['format']))
    got = segeval.compute_window_size(arg, **kw)
    want = model.window_size(leaves, mirror)
    require(num(got, 'window size') == want and isinstance(got, int), 'window size of {0} is {1}, expected {2}',
            short(leaves), short(got), want)
    total, count = sum(map(sum, leaves)), sum(map(len, leaves))
    half = (2 * total) % (2 * count) == 0 and (total // count) % 2 == 1 if total % count == 0 else False
    return total > 1, (case['format'], 'leaves%d' % min(len(leaves), 4), 'tie' if half else '', case['round'],
                       'min' if want == 2 else 'above')


def gen_default(s):
    f = s.choice(FORMATS)
    a, b = gen.mass_pair(s, 2, 300)
    if s.bool(1, 3):        # reference and hypothesis of very different mean masses
        a = [1] * sum(b) if s.bool() else [sum(b)]
    return {'a': a, 'b': b, 'format': f, 'la': gen.labels(s, len(a)), 'lb': gen.labels(s, len(b)),
            'round': s.weighted([(3, 'round')] + [(1, x) for x in ROUNDERS[1:]])}


def check_default(case):
    f = case['format']
    x, y = sut.encode(case['a'], f, case['la']), sut.encode(case['b'], f, case['lb'])
    given, mirror = rounder(case['round'])
    kw = {'boundary_format': sut.fmt(f)}
    rk = {} if case['round'] == 'round' else {'fnc_round': given}
    k = segeval.compute_window_size(sut.encode(case['b'], 'mass'), **rk)
    require(k == model.window_size([case['b']], mirror), 'window size of {0} is {1}', short(case['b']), k)
    for fn, extra in ((segeval.pk, {}), (segeval.window_diff, {}), (segeval.window_diff, {'lamprier_et_al_2007_fix': True})):
        for parts in (False, True):
            agree(fn(x, y, return_parts=parts, **dict(kw, **dict(rk, **extra))),
                  fn(x, y, return_parts=parts, window_size=k, **dict(kw, **extra)),
                  '{0} with default and with explicit window size {1}'.format(fn.__name__, k))
    other = model.window_size([case['a']], mirror)
    return other != k, ('sizes differ' if other != k else 'sizes equal', f, case['round'])


def gen_default_dataset(s):
    return {'data': gen.full_dataset(s, 2, 40, 2, 3, 3), 'format': s.choice(FORMATS)}


def check_default_dataset(case):
    """In a dataset, each pair uses the window size of its own reference."""
    ds = sut.dataset(case['data'], case['format'])
    for fn, parts in ((segeval.pk, model.pk_parts), (segeval.window_diff, model.wd_parts)):
        got = fn(ds)
        for item, codings in case['data']:
            for c, m in codings:
                for d, n in codings:
                    if c == d:
                        continue
                    key = ','.join([item, str(c), str(d)])
                    k = segeval.compute_window_size(tuple(n))
                    bad, total = parts(m, n, k)
                    require(key in got, '{0}: no entry {1}', fn.__name__, key)
                    near(got[key], Fraction(bad, total) if total > 0 else Fraction(0), '{0} of {1}'.format(fn.__name__, key))
    return True, (case['format'],)


SUBS = {
    'P12': [Sub('pairs', gen_case, check_pk, 30000, enum=enum_cases)],
    'P13': [Sub('pairs', gen_case, check_wd, 20000, enum=enum_cases)],
    'P14': [Sub('sizes', gen_sizes, check_sizes, 20000), Sub('defaults', gen_default, check_default, 3000),
            Sub('dataset defaults', gen_default_dataset, check_default_dataset, 1500)],
}
