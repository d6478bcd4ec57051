"""P01 format conversions; P02 format independence."""
import itertools
import segeval
from segeval.util import SegmentationMetricError
from harness import gen, dictionary, sut
from harness.core import Sub, require, fail, short, agree, raises, canon, same


# -- P01 --------------------------------------------------------------------
def gen_masses(s):
    kind = s.weighted([(10, 'n'), (2, 'wild'), (1, 'mined')])
    if kind == 'n':
        m = gen.masses(s, 1, 600)
    elif kind == 'wild':
        m = s.many(lambda q: q.choice((1, 1, 2, 3, q.int(1, 40), q.int(1, 3000))), 1, 12)
    else:
        m = s.many(lambda q: gen.mined_int(q, 1, 5000), 1, 6)
    return {'masses': m, 'list': s.bool()}


def check_masses(case):
    masses = case['masses']
    arg = list(masses) if case['list'] else tuple(masses)
    n = sum(masses)
    positions = segeval.convert_masses_to_positions(arg)
    expected = [i + 1 for i, m in enumerate(masses) for _ in range(m)]
    require(list(positions) == expected, 'positions of {0} are {1}', short(arg), short(positions))
    back = segeval.convert_positions_to_masses(positions)
    require(list(back) == list(masses), 'masses {0} -> positions -> {1}', short(arg), short(back))
    back = segeval.convert_positions_to_masses(list(positions))
    require(list(back) == list(masses), 'masses {0} -> list of positions -> {1}', short(arg), short(back))
    string = segeval.boundary_string_from_masses(arg)
    require(len(string) == n - 1, 'boundary string of {0} has {1} positions', short(arg), len(string))
    ends = set(itertools.accumulate(masses))
    for p, here in enumerate(string):
        want = {1} if p + 1 in ends else set()
        require(set(here) == want and len(here) == len(want),
                'boundary string of {0} has {1} at {2}', short(arg), short(here), p)
    require(list(arg) == list(masses), 'argument changed')
    return len(masses) > 1, ('k%d' % min(len(masses), 4), 'n>40' if n > 40 else 'n<=40',
                             'unit-end' if masses[-1] == 1 else '', 'unit-start' if masses[0] == 1 else '')


def enum_masses(tier):
    for n in range(1, 13 if tier == 'quick' else 17):
        for bits in range(2 ** (n - 1)):
            yield {'masses': gen.masses_of(n, [p for p in range(n - 1) if bits >> p & 1]), 'list': bool(bits & 1)}
    for a, b in gen.long_pairs():
        yield {'masses': b, 'list': False}


def gen_positions(s):
    pool = s.weighted([(3, [1, 2, 3]), (2, ['a', 'b', 'c']), (2, [0, 1, 2]), (1, [256, 257, 258, 10 ** 18]),
                       (1, [-1, 0, 1]), (1, ['1', 1, 'x', 2]), (1, ['', ' ', 'a', 'aa']),
                       (1, dictionary.INTS[:60] or [1]), (1, dictionary.STRINGS[:60] or ['a'])])
    keep = s.choice((2, 3, 6, 20))
    n = gen.size(s, 1, 300)
    out = [s.choice(pool)]
    while len(out) < n:
        out.append(s.choice(pool) if s.draw(keep) == 0 else out[-1])
    return {'positions': out, 'list': s.bool()}


def runs(seq):
    out = []
    for i, x in enumerate(seq):
        if i and x == seq[i - 1]:
            out[-1] += 1
        else:
            out.append(1)
    return out


def check_positions(case):
    # fresh objects: equality, not identity, makes a run
    seq = [int(str(x)) if isinstance(x, int) else ''.join(list(x)) for x in case['positions']]
    want = runs(seq)
    arg = seq if case['list'] else tuple(seq)
    got = segeval.convert_positions_to_masses(arg)
    require(list(got) == want, 'masses of positions {0} are {1}, expected {2}', short(arg), short(got), short(want))
    again = segeval.convert_masses_to_positions(got)
    require(list(again) == [i + 1 for i, m in enumerate(want) for _ in range(m)], 'positions of {0} are {1}',
            short(got), short(again))
    return len(want) > 1, ('returning' if len(set(map(str, seq))) < len(want) else 'distinct',)


def enum_positions(tier):
    for n in range(1, 8 if tier == 'quick' else 10):
        for seq in itertools.product((1, 2, 3), repeat=n):
            yield {'positions': list(seq), 'list': seq[0] == 1}
    for a, b in gen.long_pairs():
        yield {'positions': gen.positions_of(b, range(1, len(b) + 1)), 'list': True}


SYMBOLS = ['1', '0', 'b', '|', '.', 'x', ' ', 'B', '+', '*', '\\', '^', '$', '[', u'\u00e9', '\t', '-', '2', '\n', '?', '(']


def gen_nltk(s):
    m = gen.masses(s, 1, 300)
    symbol = s.weighted([(3, '1'), (3, None)])
    if symbol is None:
        symbol = s.choice(SYMBOLS)
    others = [c for c in SYMBOLS if c != symbol]
    style = s.weighted([(2, '0'), (2, 'one'), (2, 'many')])
    filler = ['0' if symbol != '0' else '1'] if style == '0' else [s.choice(others)] if style == 'one' else s.shuffled(others)[:4]
    n = sum(m)
    ends = set(itertools.accumulate(m))
    return {'masses': m, 'symbol': symbol,
            'string': ''.join(symbol if p in ends else s.choice(filler) for p in range(1, n)),
            'default': symbol == '1' and s.bool()}


def check_nltk(case):
    if case['default']:
        got = segeval.convert_nltk_to_masses(case['string'])
    else:
        got = segeval.convert_nltk_to_masses(case['string'], boundary_symbol=case['symbol'])
        got2 = segeval.convert_nltk_to_masses(case['string'], case['symbol'])
        require(list(got) == list(got2), 'keyword and positional boundary symbol differ')
    require(list(got) == case['masses'], 'masses of {0!r} (boundary symbol {1!r}) are {2}, expected {3}',
            short(case['string']), case['symbol'], short(got), short(case['masses']))
    return len(case['masses']) > 1, ('symbol1' if case['symbol'] == '1' else 'other',)


def enum_nltk(tier):
    for n in range(1, 12 if tier == 'quick' else 16):
        for bits in range(2 ** (n - 1)):
            m = gen.masses_of(n, [p for p in range(n - 1) if bits >> p & 1])
            yield {'masses': m, 'symbol': '1', 'string': gen.nltk_of(m), 'default': bool(bits & 1)}
    for a, m in gen.long_pairs():
        yield {'masses': m, 'symbol': '1', 'string': gen.nltk_of(m), 'default': True}


# -- P02 --------------------------------------------------------------------
def options(s):
    return {'n_t': gen.n_t(s), 'weight': gen.weight(s), 'one_minus': s.bool(1, 4), 'parts': s.bool(1, 4),
            'window': s.weighted([(3, None), (3, 0)]) if True else None}


def gen_pair(s):
    a, b = gen.mass_pair(s, 2, s.weighted([(8, 40), (1, 250)]))
    o = options(s)
    if o['window'] is not None:
        o['window'] = gen.size(s, 1, sum(a) + 3)
    return {'a': a, 'b': b, 'la': gen.labels(s, len(a)), 'lb': gen.labels(s, len(b)), 'list': s.bool(),
            'options': o, 'lamprier': s.bool(1, 3)}


def metric_calls(o, lamprier):
    sim = {'n_t': o['n_t'], 'weight': sut.weights(o['weight'])}
    flags = {'one_minus': True} if o['one_minus'] else {'return_parts': True} if o['parts'] else {}
    win = {} if o['window'] is None else {'window_size': o['window']}
    wd = dict(win)
    if lamprier:
        wd['lamprier_et_al_2007_fix'] = True
    return [
        ('boundary_statistics', segeval.boundary_statistics, dict(sim)),
        ('boundary_confusion_matrix', segeval.boundary_confusion_matrix, dict(sim)),
        ('boundary_similarity', segeval.boundary_similarity, dict(sim, **flags)),
        ('segmentation_similarity', segeval.segmentation_similarity, dict(sim, **flags)),
        ('pk', segeval.pk, dict(win, **flags)),
        ('window_diff', segeval.window_diff, dict(wd, **flags)),
    ]


def check_pair(case):
    a, b, o = case['a'], case['b'], case['options']
    for name, fn, kw in metric_calls(o, case['lamprier']):
        base = fn(tuple(a), tuple(b), **kw)
        for f in sut.FORMATS:
            for listy in (False, True):
                if f == 'mass' and not listy:
                    continue
                x = sut.encode(a, f, case['la'], listy=listy)
                y = sut.encode(b, f, case['lb'], listy=listy)
                if f == 'sets' and name in ('pk', 'window_diff'):
                    raises(SegmentationMetricError, lambda: fn(x, y, boundary_format=sut.fmt(f), **kw),
                           '{0} upon boundary sets'.format(name))
                    continue
                got = fn(x, y, boundary_format=sut.fmt(f), **kw)
                agree(got, base, '{0} of {1} and {2} in {3} format against masses, options {4}'.format(
                    name, short(x), short(y), f, short(sorted(kw))))
    return (a != b and len(a) + len(b) > 2,
            ('equal' if a == b else 'differ', 'n>40' if sum(a) > 40 else 'n<=40', 'n_t%d' % min(o['n_t'], 4),
             'window' if o['window'] else 'auto', 'lamprier' if case['lamprier'] else ''))


def gen_dataset(s):
    o = options(s)
    if o['window'] is not None:
        o['window'] = s.int(1, 9)
    data = gen.full_dataset(s, 2, 24, max_coders=4, max_items=3)
    return {'data': data, 'options': o, 'lamprier': s.bool(1, 3), 'parts': s.bool(1, 3),
            'compare': s.choice(('default', 'b', 's')),
            'labels': [[gen.labels(s, len(m)) for _, m in codings] for _, codings in data]}


def check_dataset(case):
    data, o = case['data'], case['options']
    sim = {'n_t': o['n_t'], 'weight': sut.weights(o['weight'])}
    agreement = dict(sim)
    if case['compare'] != 'default':
        agreement['fnc_compare'] = (segeval.boundary_similarity if case['compare'] == 'b'
                                    else segeval.segmentation_similarity)
    if case['parts']:
        agreement['return_parts'] = True
    calls = metric_calls(o, case['lamprier'])
    calls += [(n, getattr(segeval, n), agreement) for n in
              ('actual_agreement_linear', 'fleiss_pi_linear', 'fleiss_kappa_linear', 'artstein_poesio_bias_linear')]
    coefficients = ('fleiss_pi_linear', 'fleiss_kappa_linear')
    complete = all(all(x == 1 for x in m) for _, codings in data for _, m in codings)
    different = False
    for name, fn, kw in calls:
        if complete and name in coefficients and not case['parts']:
            continue        # every potential boundary placed: chance-corrected agreement is undefined
        base = fn(sut.dataset(data), **kw)
        for f in sut.FORMATS[1:]:
            encoded = {}
            for (item, codings), labels in zip(data, case['labels']):
                encoded[item] = {c: sut.encode(m, f, l) for (c, m), l in zip(codings, labels)}
            ds = segeval.Dataset(encoded, boundary_format=sut.fmt(f))
            if f == 'sets' and name in ('pk', 'window_diff'):
                raises(SegmentationMetricError, lambda: fn(ds, **kw), '{0} upon a dataset of boundary sets'.format(name))
                continue
            agree(fn(ds, **kw), base, '{0} of a dataset in {1} format against masses'.format(name, f))
        different = True
    return (any(c[0][1] != d[1] for _, c in data for d in c),
            ('coders%d' % len(data[0][1]), 'items%d' % len(data), 'parts' if case['parts'] else '', case['compare']))


SUBS = {
    'P01': [
        Sub('masses', gen_masses, check_masses, 40000, enum=enum_masses),
        Sub('positions', gen_positions, check_positions, 40000, enum=enum_positions),
        Sub('nltk', gen_nltk, check_nltk, 40000, enum=enum_nltk),
    ],
    'P02': [
        Sub('pairs', gen_pair, check_pair, 6000),
        Sub('datasets', gen_dataset, check_dataset, 1600),
    ],
}
