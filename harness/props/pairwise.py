"""P15 dataset comparisons; P16 summarize."""
from __future__ import division
from decimal import Decimal, getcontext
from fractions import Fraction
import math
import segeval
from harness import gen, sut, model
from harness.core import Sub, require, fail, short, agree, num, near, canon, same

METRICS = ('boundary_similarity', 'segmentation_similarity', 'boundary_statistics', 'boundary_confusion_matrix', 'pk',
           'window_diff')
WINDOW = ('pk', 'window_diff')


def gen_options(s, metric):
    kw = {}
    if metric in WINDOW:
        if s.bool(1, 3):
            kw['window_size'] = s.int(1, 9)
        if metric == 'window_diff' and s.bool(1, 4):
            kw['lamprier_et_al_2007_fix'] = True
        if s.bool(1, 6):
            kw['fnc_round'] = s.choice(('ceil', 'floor'))
    else:
        if s.bool(1, 2):
            kw['n_t'] = gen.n_t(s)
        if s.bool(1, 3):
            kw['weight'] = gen.weight(s)
    if metric not in ('boundary_statistics', 'boundary_confusion_matrix'):
        flag = s.weighted([(4, None), (2, 'one_minus'), (2, 'return_parts')])
        if flag:
            kw[flag] = True
    return kw


def real_options(kw):
    out = dict(kw)
    if 'weight' in out:
        out['weight'] = sut.weights(out['weight'])
    if 'fnc_round' in out:
        out['fnc_round'] = getattr(math, out['fnc_round'])
    return out


def gen_case(s):
    metric = s.choice(METRICS)
    two = s.bool(2, 5)
    types = metric not in WINDOW and s.bool(1, 5)
    first = gen.ragged_dataset(s, 2, 24)
    case = {'metric': metric, 'options': gen_options(s, metric), 'format': s.choice(sut.FORMATS[:3 if metric in WINDOW else 4]),
            'permuted': s.weighted([(3, None), (1, True), (1, False)]), 'call': s.choice(('positional', 'keyword'))}
    if types:
        case['format'] = 'strings'
        first = [[item, [[c, multi(s, sum(m))] for c, m in codings]] for item, codings in first]
    case['first'] = first
    if s.bool(1, 10):
        first.insert(s.draw(len(first) + 1), ['uncoded', []])
    if two:
        if s.bool(1, 8):
            case['itself'] = True           # the same dataset object twice
            case['second'] = [[item, [list(c) for c in codings]] for item, codings in first]
        else:
            case['second'] = partner(s, first, case['format'])
    return case


def multi(s, n):
    return [sorted({s.int(1, 4) for _ in range(s.weighted([(3, 0), (3, 1), (1, 2)]))}) for _ in range(n - 1)]


def partner(s, first, f):
    """A second dataset sharing some items (same lengths) and having others of its own."""
    if s.bool(1, 5):
        coders = [c for c, _ in max((codings for _, codings in first), key=len)]        # the same coders
    else:
        coders = gen.coder_names(s, s.int(1, 4))
    out = []
    for item, codings in first:
        if s.bool(1, 4):
            continue
        if not codings:
            out.append([item, [[c, gen.masses(s, 2, 9) if f != 'strings' else [[1]]] for c in coders]])
            continue
        n = sum(codings[0][1]) if f != 'strings' else len(codings[0][1]) + 1
        group = s.subset(coders, 3, 4) or coders[:1]
        if f == 'strings':
            out.append([item, [[c, multi(s, n)] for c in group]])
        else:
            base = codings[0][1]
            bounds, total = [], 0
            for m in base[:-1]:
                total += m
                bounds.append(total - 1)
            out.append([item, [[c, gen.masses_of(n, gen.second(s, n, bounds))] for c in group]])
    for item in gen.names(s, s.draw(3)):
        if item not in [i for i, _ in first]:
            n = s.int(2, 9)
            if f == 'strings':
                out.append([item, [[c, multi(s, n)] for c in coders]])
            else:
                out.append([item, gen.item_codings(s, n, coders)])
    if not out or s.bool():
        return s.shuffled(out)
    return out


def make(cases, f):
    return sut.sets_dataset(cases) if f == 'strings' else sut.dataset(cases, f)


def check_pairs(case):
    metric, f = case['metric'], case['format']
    fn = getattr(segeval, metric)
    kw = real_options(case['options'])
    if case['permuted'] is not None:
        kw['permuted'] = case['permuted']
    permuted = case['permuted'] if case['permuted'] is not None else metric in WINDOW
    direct = real_options(case['options'])
    first = make(case['first'], f)
    second = case.get('second')
    if second is not None and not second:
        return False, ('empty second dataset',)
    if second is None:
        got = fn(dataset=first, **kw) if case['call'] == 'keyword' else fn(first, **kw)
    else:
        other = first if case.get('itself') else make(second, f)
        got = fn(hypothesis=first, reference=other, **kw) if case['call'] == 'keyword' else fn(first, other, **kw)
    require(isinstance(got, dict), '{0} of a dataset gave {1}', metric, short(got))
    bf = sut.fmt('sets' if f == 'strings' else f)
    encode = (lambda m: sut.string(m)) if f == 'strings' else (lambda m: sut.encode(m, f))
    expected = {}       # entry -> (first's, second's segmentation)
    either = []         # unordered pairs: exactly one of two entries
    if second is None:
        for item, codings in case['first']:
            for i, (c, m) in enumerate(codings):
                for d, n in codings[i + 1:]:
                    x, y = ','.join([item, str(c), str(d)]), ','.join([item, str(d), str(c)])
                    if permuted:
                        expected[x], expected[y] = (m, n), (n, m)
                    else:
                        either.append(((x, (m, n)), (y, (n, m))))
    else:
        index = dict((item, codings) for item, codings in second)
        for item, codings in case['first']:
            for c, m in codings:
                for d, n in index.get(item, []):
                    expected[','.join([item, str(c), str(d)])] = (m, n)
    for (x, xs), (y, ys) in either:
        present = [e for e in (x, y) if e in got]
        require(len(present) == 1, '{0}: the unordered pair {1!r} has entries {2}', metric, x, present)
        expected[present[0]] = xs if present[0] == x else ys
    require(set(got) == set(expected), '{0}: entries {1} instead of {2}', metric,
            short(sorted(set(got) - set(expected)) or sorted(got)), short(sorted(set(expected) - set(got))))
    for entry, (m, n) in expected.items():
        agree(got[entry], fn(encode(m), encode(n), boundary_format=bf, **direct),
              '{0}: entry {1!r} against the pair itself, options {2}'.format(metric, entry, short(sorted(case['options'].items(), key=str))))
    sizes = [len(c) for _, c in case['first']]
    return len(expected) > 1, (metric, 'itself' if case.get('itself') else 'two' if second is not None else 'one', 'permuted' if permuted else 'unordered',
                               'ragged' if len(set(sizes)) > 1 else '', f, 'coders%d' % max(sizes), 'entries%d' % min(9, len(expected)),
                               *(k for k in case['options'] if k in ('one_minus', 'return_parts')))


# -- P16 --------------------------------------------------------------------
def gen_value(s, floats=False):
    kind = s.weighted([(4, 'unit'), (3, 'int'), (2, 'decimal'), (1, 'big'), (1, 'tiny'), (1, 'mined')])
    if floats:
        return ['float', s.choice((s.int(0, 60) / s.int(1, 60), s.int(-99, 99) / 8, 0.1 * s.int(-9, 9), float(s.int(-9, 9))))]
    if kind == 'unit':
        return str(Decimal(s.int(0, 60)) / s.int(1, 60))
    if kind == 'int':
        return s.int(-20, 20)
    if kind == 'decimal':
        return str(Decimal(s.int(-5000, 5000)) / s.choice((10, 100, 8, 16)))
    if kind == 'big':
        return s.choice((1, -1)) * s.int(1, 10 ** 6) * 10 ** 5
    if kind == 'tiny':
        return str(Decimal(s.int(-99, 99)) / 10 ** 9)
    return gen.mined_int(s, -1000, 10 ** 6)


def gen_summary(s):
    n = s.weighted([(1, 1), (6, 0), (2, 2)])
    count = 1 if n == 1 else s.int(2, 12) if n == 0 else s.int(2, 120)
    if s.bool(1, 160):
        count = s.int(200, 2600)
    count = gen.notable(s, count, 20000, 20, 1)
    floats = s.bool(1, 8)
    if s.bool(1, 6):
        values = [gen_value(s, floats)] * count
    else:
        pool = [gen_value(s, floats) for _ in range(min(count, s.choice((3, 12, 200))))]
        values = [s.choice(pool) for _ in range(count)] if len(pool) < count else pool
    return {'values': values, 'seed': s.draw(1000), 'shift': s.choice((1, -3, '0.5', 100)), 'scale': s.choice((2, -1, '0.5', -3))}


def value(v):
    return Decimal(v) if isinstance(v, str) else v[1] if isinstance(v, list) else v


def statistics(values):
    n = len(values)
    mean = sum(values) / n
    var = sum((v - mean) ** 2 for v in values) / n
    return mean, var


def summary_close(got, want_squared, what, scale, power=1):
    """got, a square root, against the square of its exact value."""
    g = num(got, what)
    require(g >= 0, '{0} is negative: {1}', what, short(got))
    tol = Fraction(1, 10 ** 17) * max(1, scale) ** 2
    require(abs(g * g - want_squared) <= tol, '{0} is {1}, its square should be {2}', what, short(got), float(want_squared))


def check_summary(case):
    values = [value(v) for v in case['values']]
    exact = [Fraction(v) for v in values]
    n = len(values)
    mean, var = statistics(exact)
    scale = max(abs(v) for v in exact)
    unit = max(Fraction(1), scale)

    def verify(vs, mean, var, what):
        got = segeval.summarize({'e%d' % i: v for i, v in enumerate(vs)})
        require(len(got) == 5, '{0}: summarize gave {1}', what, short(got))
        near(got[0], mean, what + ' mean', scale=unit)
        summary_close(got[1], var, what + ' standard deviation', unit)
        near(got[2], var, what + ' variance', scale=unit ** 2)
        summary_close(got[3], var / len(vs), what + ' standard error', unit)
        require(got[4] == len(vs), '{0} number of values is {1} instead of {2}', what, short(got[4]), len(vs))
        return got
    verify(values, mean, var, 'of the values')
    order = gen_order(n, case['seed'])
    verify([values[i] for i in order], mean, var, 'of the reordered values')
    if isinstance(values[0], float):
        # shifted and scaled floats are rounded ones
        unit = max(Fraction(1), scale * 3 + 100)
        for what, vs in (('shifted', [v + float(value(case['shift'])) for v in values]), ('scaled', [v * float(value(case['scale'])) for v in values])):
            verify(vs, *statistics([Fraction(v) for v in vs]), 'of the %s floats' % what)
        return n > 1 and var > 0, ('floats', 'constant' if var == 0 else 'varying')
    c = value(case['shift'])
    unit = max(Fraction(1), scale + 100)
    verify([v + c for v in values], mean + Fraction(c), var, 'of the shifted values')
    c = value(case['scale'])
    unit = max(Fraction(1), scale * 3)
    verify([v * c for v in values], mean * Fraction(c), var * Fraction(c) ** 2, 'of the scaled values')
    return n > 1 and var > 0, ('n%d' % min(n, 3), 'constant' if var == 0 else 'varying', 'n>999' if n > 999 else 'n>10' if n > 10 else '',
                               'negative' if min(exact) < 0 else '')


def gen_order(n, seed):
    order = list(range(n))
    x = seed + 1
    for i in range(n - 1, 0, -1):
        x = (x * 1103515245 + 12345) % 2147483648
        j = (x >> 8) % (i + 1)
        order[i], order[j] = order[j], order[i]
    return order


def gen_metric_summary(s):
    return {'data': gen.full_dataset(s, 2, 24, 2, 4, 3), 'metric': s.choice(('pk', 'window_diff', 'boundary_similarity',
                                                                          'segmentation_similarity')), 'unscaled': s.bool(1, 4)}


def check_metric_summary(case):
    kw = {'weight': sut.weights('st')} if case.get('unscaled') and case['metric'] not in WINDOW else {}
    pairs = getattr(segeval, case['metric'])(sut.dataset(case['data']), **kw)
    got = segeval.summarize(pairs)
    mean, var = statistics([num(v) for v in pairs.values()])
    near(got[0], mean, 'mean of ' + case['metric'])
    near(got[2], var, 'variance of ' + case['metric'])
    summary_close(got[1], var, 'standard deviation', 1)
    summary_close(got[3], var / len(pairs), 'standard error', 1)
    require(got[4] == len(pairs), 'number of values {0}', got[4])
    return var > 0, (case['metric'],)


SUBS = {
    'P15': [Sub('datasets', gen_case, check_pairs, 12000)],
    'P16': [Sub('values', gen_summary, check_summary, 4800), Sub('metrics', gen_metric_summary, check_metric_summary, 2500)],
}
