"""P17 actual agreement, P18 pi/kappa/bias, P19 dependence on the codings only."""
from __future__ import division
from collections import Counter
from decimal import Decimal
from fractions import Fraction
import segeval
from harness import gen, sut, model
from harness.core import Sub, require, fail, short, agree, num, near, raises, EXACT

TOL = Fraction(1, 10 ** 15)


def gen_case(s, documented=True):
    kind = s.weighted([(5, 'mass'), (3, 'strings'), (1, 'extreme')])
    case = {'n_t': gen.n_t(s), 'weight': gen.weight(s), 'compare': s.weighted([(2, 'default'), (2, 'b'), (2, 's'), (1, 'own')]),
            'container': s.weighted([(4, 'Dataset'), (2, 'dict')]), 'call': s.draw(2), 'declared': s.draw(10)}
    if kind == 'mass':
        case['format'] = s.weighted([(3, 'mass'), (1, 'position'), (1, 'nltk'), (1, 'sets')])
        lo = 1 if case['format'] in ('mass', 'position') else 2
        case['data'] = gen.full_dataset(s, lo, 30)
    elif kind == 'extreme':
        # all coders place (nearly) all or no boundaries
        case['format'] = 'mass'
        coders = gen.coder_names(s, s.int(2, 5))
        case['data'] = []
        for item in gen.names(s, s.int(1, 4)):
            n = s.int(1, 8)
            case['data'].append([item, [[c, s.choice(([n], [1] * n, [1] * n if n < 3 else [2] + [1] * (n - 2)))]
                                        for c in coders]])
    else:
        case['format'] = 'strings'
        coders = gen.coder_names(s, s.int(2, 4))
        case['data'] = []
        types = s.choice(([1], [1, 2], [1, 2, 3], [2, 5], [0, 1], [-1, 4, 300]))
        for item in gen.names(s, s.int(1, 3)):
            n = s.int(1, 9)
            base = [sorted(t for t in types if s.bool(1, 3)) for _ in range(n)]
            codings = []
            for c in coders:
                if s.bool(1, 2):
                    string = [list(p) for p in base]
                    for _ in range(s.draw(4)):
                        i = s.draw(n)
                        string[i] = sorted(set(string[i]) ^ {s.choice(types)})
                else:
                    string = [sorted(t for t in types if s.bool(1, 3)) for _ in range(n)]
                codings.append([c, string])
            case['data'].append([item, codings])
    return case


def strings(case):
    """[(item, [(coder, boundary string)])]"""
    if case['format'] == 'strings':
        return case['data']
    return [[item, [[c, model.bstring(m)] for c, m in codings]] for item, codings in case['data']]


def container(case, data=None):
    data = case['data'] if data is None else data
    f = case['format']
    if case['container'] == 'dict' and f in ('mass',):
        return {item: {c: tuple(m) for c, m in codings} for item, codings in data}
    types = sut.declared(case.get('declared', 0), [t for _, codings in strings(case) for _, b in codings for p in b for t in p])
    out = sut.sets_dataset(data) if f == 'strings' else sut.dataset(data, f)
    if types is not None:
        out.boundary_types = set(types)
    return out


def keywords(case):
    kw = {'n_t': case['n_t'], 'weight': sut.weights(case['weight'])}
    if case['n_t'] == 2 and case['call']:
        del kw['n_t']
    if case['weight'] == 'default' and case['call']:
        del kw['weight']
    if case['compare'] == 'own':
        kw['fnc_compare'] = overlap(case)
    elif case['compare'] != 'default':
        kw['fnc_compare'] = segeval.boundary_similarity if case['compare'] == 'b' else segeval.segmentation_similarity
    return kw


def overlap(case):
    """A comparison function of the user's: boundaries in common out of all boundaries."""
    def compare(a, b, **options):
        require(options.get('return_parts') is True, 'the comparison function was called without return_parts')
        require(options.get('n_t') == case['n_t'], 'the comparison function was given n_t {0}', short(options.get('n_t')))
        require(tuple(options.get('weight') or ()) == sut.weights(case['weight']), 'the comparison function was given other weights')
        f = options.get('boundary_format')
        x, y = ({(i, t) for i, p in enumerate(model.bstring(sut.masses_of(v, f)) if f != 'sets' else v) for t in p} for v in (a, b))
        return Decimal(len(x & y)), len(x | y), 'more'
    return compare


def reference(case):
    return model.Agreement(strings(case), case['n_t'], {'s': 's', 'own': 'own'}.get(case['compare'], 'b'), case['weight'])


def labels(case, m):
    coders = len(case['data'][0][1])
    return ['coders%d' % coders, 'items%d' % len(case['data']), case['format'], case['compare'], case['weight'],
            case['container'], 'n_t%d' % min(case['n_t'], 4), 'perfect' if m.a_a == 1 else 'disagreement',
            'one-unit item' if any(p == 0 for _, _, p in m.comparisons) else '']


def loose(case):
    return case['weight'] != 'default'      # unscaled weights divide integers, giving floats


def check_actual(case):
    m = reference(case)
    kw = keywords(case)
    data = container(case)
    got = segeval.actual_agreement_linear(data, **kw)
    near(got, m.a_a, 'actual agreement', loose=loose(case))
    parts = segeval.actual_agreement_linear(data, return_parts=True, **kw)
    require(isinstance(parts, tuple) and len(parts) == 4, 'return_parts gave {0}', short(parts))
    numerators, denominators, pbs, coders = parts
    n = len(m.comparisons)
    require(len(numerators) == len(denominators) == len(pbs) == n,
            '{0} numerators, {1} denominators, {2} potential boundaries for {3} comparisons', len(numerators),
            len(denominators), len(pbs), n)
    key = lambda t: (t[2], t[1], round(float(t[0]), 9))
    mine = sorted(((Fraction(a), Fraction(b), Fraction(c)) for a, b, c in m.comparisons), key=key)
    theirs = sorted(((num(a), num(b), num(c)) for a, b, c in zip(numerators, denominators, pbs)), key=key)
    for x, y in zip(mine, theirs):
        require(x[1:] == y[1:] and abs(x[0] - y[0]) <= TOL, 'comparison gave (numerator, denominator, pbs) {0}, expected {1}',
                tuple(map(float, y)), tuple(map(float, x)))
    require(set(coders) == set(m.coders), 'boundaries of coders {0}', short(coders))
    for c, entries in m.coders.items():
        require(Counter((num(b), num(p)) for b, p in coders[c]) == Counter((Fraction(b), Fraction(p)) for b, p in entries),
                'coder {0!r}: [boundaries, potential boundaries] are {1}, expected {2}', c, short(coders[c]), short(entries))
    return m.a_a != 1, labels(case, m)


def check_coefficients(case):
    m = reference(case)
    total = sum(p for _, _, p in m.comparisons)
    if total == 0:
        return False, ('no potential boundaries',)
    kw = keywords(case)
    data = container(case)
    a_a, pi_e, kappa_e = m.a_a, m.pi_e, m.kappa_e
    lo = loose(case)
    for name, e in (('fleiss_pi_linear', pi_e), ('fleiss_kappa_linear', kappa_e)):
        fn = getattr(segeval, name)
        parts = fn(data, return_parts=True, **kw)
        require(isinstance(parts, tuple) and len(parts) == 2, '{0}: return_parts gave {1}', name, short(parts))
        near(parts[0], a_a, name + ' A_a', loose=lo)
        near(parts[1], e, name + ' A_e')
        if e < 1:
            near(fn(data, **kw), (a_a - e) / (1 - e), name, loose=lo, scale=1 / (1 - e) ** 2)
    parts = segeval.artstein_poesio_bias_linear(data, return_parts=True, **kw)
    require(isinstance(parts, tuple) and len(parts) == 2, 'bias: return_parts gave {0}', short(parts))
    near(parts[0], pi_e, "bias: pi's A_e")
    near(parts[1], kappa_e, "bias: kappa's A_e")
    near(segeval.artstein_poesio_bias_linear(data, **kw), pi_e - kappa_e, 'bias')
    return a_a != 1 and pi_e not in (0, 1), labels(case, m) + [
        'biased' if pi_e != kappa_e else 'unbiased', 'A_e=1' if pi_e == 1 or kappa_e == 1 else '', 'A_e=0' if pi_e == 0 else '']


def gen_refused(s):
    data = gen.full_dataset(s, 2, 12, 2, 4, 4)
    kind = s.choice(('single', 'unequal'))
    at = s.draw(len(data))
    if kind == 'single':
        if s.bool():
            data = [[item, codings[:1]] for item, codings in data]
        else:
            data[at][1] = data[at][1][:1]
    else:
        extra = gen.names(s, 1)[0]
        if len(data) == 1:
            data.append([str(data[0][0]) + '+', [list(c) for c in data[0][1]]])
        codings = data[at][1]
        data[at][1] = codings[:-1] if len(codings) > 2 and s.bool() else codings + [['x' + extra, codings[0][1]]]
    return {'kind': kind, 'data': data, 'container': s.choice(('Dataset', 'dict')), 'parts': s.bool(1, 3),
            'compare': s.choice(('b', 's')), 'n_t': s.int(1, 4)}


def check_refused(case):
    case = dict(case, format='mass')
    kw = {'n_t': case['n_t'], 'return_parts': case['parts'],
          'fnc_compare': segeval.boundary_similarity if case['compare'] == 'b' else segeval.segmentation_similarity}
    data = container(case)
    counts = [len(codings) for _, codings in case['data']]
    if min(counts) < 2:
        raises(Exception, lambda: segeval.fleiss_kappa_linear(data, **kw), 'kappa with an item of one coder')
    if len(set(counts)) > 1:
        raises(Exception, lambda: segeval.fleiss_kappa_linear(data, **kw), 'kappa with unequal numbers of coders')
        raises(Exception, lambda: segeval.fleiss_pi_linear(data, **kw), 'pi with unequal numbers of coders')
        raises(Exception, lambda: segeval.artstein_poesio_bias_linear(data, **kw), 'bias with unequal numbers of coders')
    return True, (case['kind'], case['container'])


# -- P19 -----------------------------------------------------------------------
def gen_rename(s):
    case = gen_case(s)
    case['weight'] = 'default'
    coders = sorted({c for _, codings in case['data'] for c, _ in codings}, key=repr)
    fresh = gen.coder_names(s, len(coders))
    case['coders'] = [[c, d] for c, d in zip(coders, fresh)]
    case['items'] = [[item, new] for (item, _), new in zip(case['data'], gen.names(s, len(case['data'])))]
    case['order'] = s.shuffled(range(len(case['data'])))
    case['coder_order'] = [s.shuffled(range(len(codings))) for _, codings in case['data']]
    case['style'] = s.choice(('rename', 'swap', 'reorder', 'both', 'agree'))
    if case['style'] == 'agree':
        for _, codings in case['data']:
            for c in codings:
                c[1] = [x if isinstance(x, int) else list(x) for x in codings[0][1]]
    return case


def check_rename(case):
    m = reference(case)
    if sum(p for _, _, p in m.comparisons) == 0:
        return False, ('no potential boundaries',)
    style = case['style']
    rename_c = {repr(c): d for c, d in case['coders']}
    rename_i = dict(case['items'])
    if style == 'swap':
        olds = [c for c, _ in case['coders']]
        rename_c = {repr(c): d for c, d in zip(olds, olds[1:] + olds[:1])}
    moved = []
    for k in (case['order'] if style in ('reorder', 'both', 'swap') else range(len(case['data']))):
        item, codings = case['data'][k]
        order = case['coder_order'][k] if style in ('reorder', 'both') else range(len(codings))
        codings = [codings[i] for i in order]
        if style in ('rename', 'both', 'swap'):
            codings = [[rename_c[repr(c)], x] for c, x in codings]
        moved.append([rename_i[item] if style in ('rename', 'both') else item, codings])
    kw = keywords(case)
    one, two = container(case), container(case, moved)
    e_max = max(m.pi_e, m.kappa_e)
    names = ['actual_agreement_linear', 'artstein_poesio_bias_linear']
    if e_max < 1:
        names += ['fleiss_pi_linear', 'fleiss_kappa_linear']
    identical = all(all(x == codings[0][1] for _, x in codings) for _, codings in case['data'])
    values = {}
    for name in names:
        fn = getattr(segeval, name)
        v, w = num(fn(one, **kw), name), num(fn(two, **kw), name)
        values[name] = v
        slack = EXACT * 100 * (1 if e_max == 1 else 1 / (1 - e_max) ** 2)
        require(abs(v - w) <= slack, '{0} is {1}, after {2} {3}', name, float(v), style, float(w))
        if name != 'artstein_poesio_bias_linear':
            ok = abs(v - 1) <= slack
            require(ok == identical, '{0} is {1} although coders {2}', name, float(v),
                    'agree completely' if identical else 'disagree')
        if name.startswith('fleiss'):
            require(v <= values['actual_agreement_linear'] + slack, '{0} {1} exceeds actual agreement {2}', name, float(v),
                    float(values['actual_agreement_linear']))
    a = values['actual_agreement_linear']
    require(0 <= a <= 1, 'actual agreement {0} outside [0, 1]', float(a))
    return not identical, [style, 'identical' if identical else 'differ'] + labels(case, m)


SUBS = {
    'P17': [Sub('datasets', gen_case, check_actual, 6000)],
    'P18': [Sub('datasets', gen_case, check_coefficients, 5000), Sub('refused', gen_refused, check_refused, 3000)],
    'P19': [Sub('renaming', gen_rename, check_rename, 5000)],
}
