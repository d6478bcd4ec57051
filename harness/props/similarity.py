"""P07 boundary similarity, P08 segmentation similarity, P09 confusion matrix, P28 weights."""
from __future__ import division
from collections import Counter
from decimal import Decimal
from fractions import Fraction
import segeval
from harness import gen, sut, model
from harness.core import Sub, require, fail, short, agree, num, near, canon, same


def gen_pair(s):
    if s.bool():
        f = s.choice(sut.FORMATS)
        m, n = gen.mass_pair(s, 1 if f in ('mass', 'position') else 2, 200)
        case = {'format': f, 'a': m, 'b': n, 'la': gen.labels(s, len(m)), 'lb': gen.labels(s, len(n))}
    else:
        a, b = gen.string_pair(s, 1)
        case = {'format': 'strings', 'a': a, 'b': b}
    case['n_t'] = gen.n_t(s)
    case['weight'] = s.choice(('default', 'default', 's', 't', 'st', 'custom'))
    case['coefficients'] = [s.int(0, 9) for _ in range(6)]
    case['call'] = s.choice(('positional', 'keyword'))
    case['declared'] = s.draw(10)
    return case


def enum_pairs(tier):
    """All pairs of single-type segmentations, and of two-type strings, of small scope."""
    top = 6 if tier == 'quick' else 8
    for n in range(1, top + 1):
        all_masses = [gen.masses_of(n, [p for p in range(n - 1) if bits >> p & 1]) for bits in range(2 ** (n - 1))]
        for a in all_masses:
            for b in all_masses:
                for n_t in range(1, min(n, 4) + 1):
                    yield {'format': 'mass', 'a': a, 'b': b, 'n_t': n_t, 'weight': 'default', 'call': 'positional'}
    subsets = [[], [1], [2], [1, 2]]
    for n in range(1, 3 if tier == 'quick' else 4):
        import itertools
        for a in itertools.product(subsets, repeat=n):
            for b in itertools.product(subsets, repeat=n):
                for w in ('default', 'st'):
                    yield {'format': 'strings', 'a': [list(p) for p in a], 'b': [list(p) for p in b], 'n_t': n,
                           'weight': w, 'call': 'keyword'}
    for a, b in gen.long_pairs():
        yield {'format': 'mass', 'a': a, 'b': b, 'n_t': 2, 'weight': 'default', 'call': 'positional'}


def inputs(case):
    """(arguments x, y; boundary strings A, B; keyword options)."""
    f = case['format']
    if f == 'strings':
        A, B = case['a'], case['b']
        x, y = sut.string(A), sut.string(B)
        kind = sut.fmt('sets')
    else:
        A = [sorted(p) for p in model.bstring(case['a'])]
        B = [sorted(p) for p in model.bstring(case['b'])]
        x = sut.encode(case['a'], f, case.get('la'))
        y = sut.encode(case['b'], f, case.get('lb'))
        kind = sut.fmt(f)
    kw = {'boundary_format': kind, 'n_t': case['n_t']}
    types = sut.declared(case.get('declared', 0), [t for p in list(A) + list(B) for t in p])
    if types is not None:
        kw['boundary_types'] = types
    return x, y, A, B, kw


def custom(c):
    """Weighting functions that tell edits apart (exact numbers)."""
    def fa(additions):
        return sum(Decimal(c[0]) / 8 + (c[1] if tuple(t)[1] == 'a' else 0) for t in additions)

    def fs(substitutions, max_s, min_s=1):
        return sum(Decimal(c[2]) / 16 for _ in substitutions) + c[3] * len(substitutions) * (max_s - min_s + 1)

    def ft(transpositions, max_n):
        return sum(Decimal(c[4]) / 4 for _ in transpositions) + c[5] * len(transpositions) * max_n
    return fa, fs, ft


def custom_total(c, e):
    adds = Fraction(c[0], 8) * e.add_count + c[1] * e.add_a
    spread = max(e.types) - min(e.types) + 1
    subs = e.sub_count * (Fraction(c[2], 16) + c[3] * spread)
    trs = e.t_count * (Fraction(c[4], 4) + c[5] * e.n_t)
    return adds + subs + trs


def invoke(fn, case, x, y, **kw):
    if case['call'] == 'keyword':
        return fn(hypothesis=x, reference=y, **kw)
    return fn(x, y, **kw)


def labels(case, e, A, B):
    return ['identical' if A == B else 'differ', 'n_t%d' % min(case['n_t'], 5), case['weight'],
            'many types' if len(e.types) > 1 else 'one type', case['format'],
            'no boundaries' if not e.any_types else '',
            'sub' * bool(e.sub_count), 'transp' * bool(e.t_count), 'far' * any(j - i > 1 for i, j, _ in e.transpositions)]


def check_b(case):
    x, y, A, B, kw = inputs(case)
    e = model.Edits(A, B, case['n_t'])
    if case['weight'] == 'custom':
        kw['weight'] = custom(case['coefficients'])
        total = custom_total(case['coefficients'], e)
    else:
        if not (case['weight'] == 'default' and case['n_t'] % 2):
            kw['weight'] = sut.weights(case['weight'])
        total = e.count_edits(case['weight'])
    den = e.edit_count + e.match_count
    numerator = den - total
    value = numerator / den if den else Fraction(1)
    B_ = segeval.boundary_similarity
    v = near(invoke(B_, case, x, y, **kw), value, 'boundary similarity')
    near(invoke(B_, case, x, y, one_minus=True, **kw), 1 - value, 'one minus boundary similarity', loose=True)
    parts = invoke(B_, case, x, y, return_parts=True, **kw)
    require(isinstance(parts, tuple) and len(parts) == 5, 'return_parts gave {0}', short(parts))
    near(parts[0], numerator, 'numerator')
    near(parts[1], Fraction(den), 'denominator')
    adds, subs, trs = sut.edits(parts[2:])
    require((len(adds), len(subs), set(trs)) == (e.add_count, e.sub_count, e.transpositions),
            'return_parts gives edits {0}', short(parts[2:]))
    if case['weight'] != 'custom':
        require(0 <= v <= 1, 'boundary similarity {0} outside [0, 1]', short(v))
        require((v == 1) == (A == B), 'boundary similarity {0} of {1} segmentations', short(float(v)),
                'identical' if A == B else 'differing')
    return A != B, labels(case, e, A, B)


def check_s(case):
    x, y, A, B, kw = inputs(case)
    e = model.Edits(A, B, case['n_t'])
    if case['weight'] == 'custom':
        kw['weight'] = custom(case['coefficients'])
        total = custom_total(case['coefficients'], e)
    else:
        if not (case['weight'] == 'default' and case['n_t'] % 2):
            kw['weight'] = sut.weights(case['weight'])
        total = e.count_edits(case['weight'])
    den = e.pbs
    numerator = den - total
    value = numerator / den if den else Fraction(1)
    S = segeval.segmentation_similarity
    v = near(invoke(S, case, x, y, **kw), value, 'segmentation similarity')
    near(invoke(S, case, x, y, one_minus=True, **kw), 1 - value, 'one minus segmentation similarity', loose=True)
    parts = invoke(S, case, x, y, return_parts=True, **kw)
    require(isinstance(parts, tuple) and len(parts) >= 2, 'return_parts gave {0}', short(parts))
    near(parts[0], numerator, 'numerator')
    near(parts[1], Fraction(den), 'denominator')
    if case['weight'] != 'custom':
        require(0 <= v <= 1, 'segmentation similarity {0} outside [0, 1]', short(v))
        require((v == 1) == (A == B), 'segmentation similarity {0} of {1} segmentations', short(float(v)),
                'identical' if A == B else 'differing')
        if len(e.types) == 1:
            b = num(invoke(segeval.boundary_similarity, case, x, y, **kw))
            require(v >= b - Fraction(1, 10 ** 15), 'segmentation similarity {0} below boundary similarity {1}',
                    float(v), float(b))
    return A != B, labels(case, e, A, B)


# -- P09 ---------------------------------------------------------------------
def cells(matrix):
    """{(predicted, actual): number} of the non-zero cells, read over all classes."""
    classes = list(matrix.classes())
    out = {}
    for p in classes:
        for q in classes:
            v = num(matrix[p][q], 'cell [{0!r}][{1!r}]'.format(p, q))
            if v:
                out[p, q] = v
    return out


def check_matrix(matrix, A, B, n_t, weight_kind, c, statistics, what='confusion matrix'):
    e = model.Edits(A, B, n_t)
    got = cells(matrix)
    per_transposition = {}
    for i, j, t in e.transpositions:
        if weight_kind == 'custom':
            w = Fraction(c[4], 4) + c[5] * n_t
        elif weight_kind in ('t', 'st'):
            w = Fraction(1)
        else:
            w = Fraction(j - i, n_t)
        per_transposition[t] = per_transposition.get(t, 0) + w
    diagonal = {t: Fraction(k) for t, k in e.matches.items()}
    for t, w in per_transposition.items():
        diagonal[t] = diagonal.get(t, 0) + w
    tol = Fraction(1, 10 ** 15)
    for t in e.types:
        require(abs(got.get((t, t), 0) - diagonal.get(t, 0)) <= tol, '{0}: cell [{1}][{1}] is {2}, expected {3}',
                what, t, got.get((t, t), 0), diagonal.get(t, 0))
    off = {k: v for k, v in got.items() if k[0] != k[1]}
    outcomes = e.expected_lists()
    if outcomes is not None:
        wanted = []
        for subs, adds in outcomes:
            want = Counter()
            for x, y in subs:
                want[x, y] += 1
            for t, side in adds:
                want[(None, t) if side == 'a' else (t, None)] += 1
            if want == off:
                break
            wanted.append(dict(want))
        else:
            fail('{0}: cells off the diagonal are {1}, expected {2}', what, short(off), short(wanted[:2]))
    # every boundary is attributed exactly once
    near_misses = Counter(t for _, _, t in e.transpositions)
    for t in e.types:
        in_a = sum(1 for p in A if t in p)
        in_b = sum(1 for p in B if t in p)
        row = sum(v for (p, q), v in off.items() if p == t and q is not None) + off.get((None, t), 0)
        col = sum(v for (p, q), v in off.items() if q == t and p is not None) + off.get((t, None), 0)
        require(row + e.matches.get(t, 0) + near_misses[t] == in_a and
                col + e.matches.get(t, 0) + near_misses[t] == in_b,
                '{0}: boundaries of type {1} are {2} and {3}, the matrix accounts for {4} and {5}', what, t, in_a, in_b,
                row + e.matches.get(t, 0) + near_misses[t], col + e.matches.get(t, 0) + near_misses[t])
    require(all(p is not None or q is not None for p, q in got), '{0}: cell [None][None] is not 0', what)
    if statistics is not None:
        want = Counter()
        adds, subs, _ = sut.edits((statistics['additions'], statistics['substitutions'], statistics['transpositions']))
        for x, y in subs:
            want[x, y] += 1
        for t, side in adds:
            want[(None, t) if side == 'a' else (t, None)] += 1
        require(dict(want) == off, '{0}: cells off the diagonal are {1}, the statistics give {2}', what, short(off),
                short(dict(want)))
    return e


def check_cm(case):
    x, y, A, B, kw = inputs(case)
    if case['weight'] == 'custom':
        kw['weight'] = custom(case['coefficients'])
    else:
        kw['weight'] = sut.weights(case['weight'])
    matrix = invoke(segeval.boundary_confusion_matrix, case, x, y, **kw)
    statistics = invoke(segeval.boundary_statistics, case, x, y, **kw)
    e = check_matrix(matrix, A, B, case['n_t'], case['weight'], case.get('coefficients'), statistics)
    return A != B, labels(case, e, A, B)


def gen_cm_dataset(s):
    groups = s.bool()
    first = gen.full_dataset(s, 2, 20, 1 if groups else 2, 3, 3)
    second = None
    if groups:
        coders = gen.coder_names(s, s.int(1, 3))
        second = [[item, gen.item_codings(s, sum(codings[0][1]), coders)] for item, codings in first]
    return {'first': first, 'second': second, 'n_t': gen.n_t(s), 'format': s.choice(sut.FORMATS)}


def check_cm_dataset(case):
    f = case['format']
    first = sut.dataset(case['first'], f)
    if case['second'] is None:
        result = segeval.boundary_confusion_matrix(first, n_t=case['n_t'])
    else:
        result = segeval.boundary_confusion_matrix(first, sut.dataset(case['second'], f), n_t=case['n_t'])
    seen = 0
    for k, (item, codings) in enumerate(case['first']):
        others = case['second'][k][1] if case['second'] is not None else codings
        for i, (c, m) in enumerate(codings):
            for j, (d, n) in enumerate(others):
                if case['second'] is None and j <= i:
                    continue
                key, swapped = ','.join([item, str(c), str(d)]), ','.join([item, str(d), str(c)])
                A, B = model.bstring(m), model.bstring(n)
                if key in result:
                    check_matrix(result[key], A, B, case['n_t'], 'default', None, None, 'matrix of ' + key)
                elif case['second'] is None and swapped in result:
                    check_matrix(result[swapped], B, A, case['n_t'], 'default', None, None, 'matrix of ' + swapped)
                else:
                    fail('no matrix for {0}', key)
                seen += 1
    require(len(result) == seen, '{0} matrices for {1} pairs', len(result), seen)
    return seen > 0, ('pairs%d' % min(seen, 6), 'two' if case['second'] else 'one')


# -- P28 -----------------------------------------------------------------------
def gen_weights(s):
    adds = s.many(lambda q: [q.int(-3, 300), q.choice('ab')], 0, 12, 4, 5)
    subs = s.many(lambda q: [q.int(-20, 40), q.int(-20, 40)], 0, 12, 4, 5)
    trs = s.many(lambda q: [q.int(0, 60), q.int(0, 60), q.int(1, 5)], 0, 12, 4, 5)
    if s.bool(1, 6):
        subs = [[x * 10 ** 6, y] for x, y in subs]
        trs = [[i, j + 500, t] for i, j, t in trs]
    low = s.choice((1, 1, s.int(-30, 30)))
    return {'adds': adds, 'subs': subs, 'trs': trs, 'low': low, 'high': low + s.draw(s.choice((5, 60, 1000))),
            'n_t': gen.n_t(s, 40), 'tuples': s.bool()}


def check_weights(case):
    from segeval.similarity.distance import multipleboundary as mb
    wrap = (lambda kind, xs: [tuple(x) for x in xs])
    if not case['tuples'] and all(hasattr(mb, k) for k in ('Addition', 'Substitution', 'Transposition')):
        wrap = (lambda kind, xs: [getattr(mb, kind)(*x) for x in xs])
    adds, subs = wrap('Addition', case['adds']), wrap('Substitution', case['subs'])
    trs = wrap('Transposition', case['trs'])
    low, high, n_t = case['low'], case['high'], case['n_t']
    near(segeval.weight_a(adds), Fraction(len(adds)), 'weight_a')
    near(segeval.weight_s(subs, high, low), Fraction(len(subs)), 'weight_s')
    near(segeval.weight_t(trs, n_t), Fraction(len(trs)), 'weight_t')
    near(segeval.weight_s_scale(subs, high, low), Fraction(sum(abs(x - y) for x, y in subs), high - low + 1),
         'weight_s_scale')
    near(segeval.weight_t_scale(trs, n_t), Fraction(sum(abs(i - j) for i, j, _ in trs), n_t), 'weight_t_scale')
    if high >= 1:
        near(segeval.weight_s_scale(subs, high), Fraction(sum(abs(x - y) for x, y in subs), high),
             'weight_s_scale with smallest type 1')
        near(segeval.weight_s(subs, high), Fraction(len(subs)), 'weight_s with smallest type 1')
    return len(adds) + len(subs) + len(trs) > 1, ('low%d' % (low == 1), 'n_t%d' % min(n_t, 5))


def gen_applied(s):
    case = {'kind': s.weighted([(4, 'pair'), (3, 'dataset'), (2, 'two')]), 'n_t': gen.n_t(s),
            'c': [s.int(0, 9) for _ in range(6)]}
    if case['kind'] == 'pair':
        a, b = gen.string_pair(s, 1, 30)
        case.update(a=a, b=b)
        return case

    def coding_pairs(coders, n, base=None):
        out = []
        for c in coders:
            x, y = gen.string_pair(s, n, n, 3)
            out.append([c, s.choice((x, y)) if base is None or s.bool() else [list(p) for p in base]])
        return out
    items = gen.names(s, s.int(1, 3))
    coders = gen.names(s, s.int(2, 3))
    case['data'] = []
    for item in items:
        case['data'].append([item, coding_pairs(coders, s.int(1, 7))])
    for _, codings in case['data']:
        tame(codings)
    if case['kind'] == 'two':
        others = gen.names(s, s.int(1, 2))
        case['other'] = [[item, coding_pairs(others, len(codings[0][1]), codings[0][1])] for item, codings in case['data']]
        for (_, x), (_, y) in zip(case['data'], case['other']):
            tame(x + y)
    return case


def tame(codings):
    """Keep the number of differing types per position small for every pair."""
    for _, string in codings:
        for i, p in enumerate(string):
            string[i] = p[:4]


class Recorder(object):
    """Weighting functions that remember what they were called with."""

    def __init__(self, c):
        self.calls = {'a': [], 's': [], 't': []}
        inner = custom(c)

        def fa(additions):
            self.calls['a'].append(Counter(tuple(x) for x in additions))
            return inner[0](additions)

        def fs(substitutions, max_s, min_s=1):
            self.calls['s'].append((Counter(tuple(x) for x in substitutions), max_s, min_s))
            return inner[1](substitutions, max_s, min_s)

        def ft(transpositions, max_n):
            self.calls['t'].append((Counter(tuple(x) for x in transpositions), max_n))
            return inner[2](transpositions, max_n)
        self.weight = [fa, fs, ft] if c[0] % 3 == 1 else (fa, fs, ft)


def verify_calls(rec, pairs, n_t, what, single_transpositions=False):
    """Every function was called for every pair, and only with edits of a pair."""
    edits = []
    for A, B in pairs:
        adds, subs, trs = sut.edits(segeval.boundary_edit_distance(sut.string(A), sut.string(B), n_t=n_t))
        types = {t for p in list(A) + list(B) for t in p} or {1}
        edits.append((Counter(adds), Counter(subs), max(types), min(types), Counter(trs)))
    for adds, subs, high, low, trs in edits:
        require(adds in rec.calls['a'], '{0}: additions {1} not weighed by the function supplied', what, short(dict(adds)))
        require((subs, high, low) in rec.calls['s'],
                '{0}: substitutions {1} with types {2}..{3} not weighed by the function supplied, but {4}', what,
                short(dict(subs)), low, high, short(rec.calls['s']))
        require((trs, n_t) in rec.calls['t'], '{0}: transpositions {1} with n_t {2} not weighed by the function supplied, but {3}',
                what, short(dict(trs)), n_t, short(rec.calls['t']))
    for got in rec.calls['a']:
        require(any(got == e[0] for e in edits), '{0}: weighed additions {1} of no pair', what, short(dict(got)))
    for got, high, low in rec.calls['s']:
        require(any((got, high, low) == e[1:4] for e in edits), '{0}: weighed substitutions {1} of no pair', what,
                short((dict(got), high, low)))
    for got, n in rec.calls['t']:
        require(n == n_t and any(got == e[4] or (single_transpositions and sum(got.values()) == 1 and not got - e[4])
                                 for e in edits),
                '{0}: weighed transpositions {1} of no pair', what, short((dict(got), n)))


def check_applied(case):
    n_t, c = case['n_t'], case['c']
    names = ('boundary_similarity', 'segmentation_similarity', 'boundary_statistics', 'boundary_confusion_matrix')
    if case['kind'] == 'pair':
        A, B = case['a'], case['b']
        e = model.Edits(A, B, n_t)
        total = custom_total(c, e)
        for name in names:
            rec = Recorder(c)
            got = getattr(segeval, name)(sut.string(A), sut.string(B), boundary_format=sut.fmt('sets'), n_t=n_t,
                                         weight=rec.weight)
            if name != 'boundary_confusion_matrix':
                verify_calls(rec, [(A, B)], n_t, name)
                den = e.edit_count + e.match_count
            if name == 'boundary_similarity':
                near(got, (den - total) / den if den else Fraction(1), name)
            elif name == 'segmentation_similarity':
                near(got, (e.pbs - total) / e.pbs, name)
            elif name == 'boundary_statistics':
                near(got['count_edits'], total, 'count_edits')
            else:
                check_matrix(got, A, B, n_t, 'custom', c, None)
                require(all(n == n_t for _, n in rec.calls['t']), 'transpositions weighed with another n_t')
        return e.edit_count > 0, ('pair', 'sub' * bool(e.sub_count), 'transp' * bool(e.t_count))
    data = sut.sets_dataset(case['data'])
    pairs = []
    if case['kind'] == 'two':
        other = sut.sets_dataset(case['other'])
        for (item, codings), (_, others) in zip(case['data'], case['other']):
            for c1, m in codings:
                for c2, n in others:
                    pairs.append((','.join([item, str(c1), str(c2)]), m, n))
    else:
        for item, codings in case['data']:
            for i, (c1, m) in enumerate(codings):
                for c2, n in codings[i + 1:]:
                    pairs.append((','.join([item, str(c1), str(c2)]), m, n))
    for name in names[:3]:
        rec = Recorder(c)
        fn = getattr(segeval, name)
        got = fn(data, other, n_t=n_t, weight=rec.weight) if case['kind'] == 'two' else fn(data, n_t=n_t, weight=rec.weight)
        for key, A, B in pairs:
            if key not in got:          # the other order of an unordered pair
                item, c1, c2 = key.rsplit(',', 2)
                key, A, B = ','.join([item, c2, c1]), B, A
                require(key in got, '{0}: no entry for {1}', name, key)
            e = model.Edits(A, B, n_t)
            total = custom_total(c, e)
            den = e.edit_count + e.match_count
            want = ((den - total) / den if den else Fraction(1)) if name == names[0] else \
                (e.pbs - total) / e.pbs if name == names[1] else total
            near(got[key]['count_edits'] if name == names[2] else got[key], want, name + ' of ' + key)
        require(len(rec.calls['a']) >= 1 and len(rec.calls['s']) >= 1 and len(rec.calls['t']) >= 1,
                '{0}: weighting functions not called', name)
        require(all(n == n_t for _, n in rec.calls['t']), '{0}: transpositions weighed with another n_t', name)
    if case['kind'] == 'dataset':
        model_data = case['data']
        for metric, compare in (('b', segeval.boundary_similarity), ('s', segeval.segmentation_similarity)):
            rec = Recorder(c)
            kw = dict(n_t=n_t, weight=rec.weight, fnc_compare=compare)
            got = segeval.actual_agreement_linear(data, return_parts=True, **kw)
            want_num = want_den = Fraction(0)
            for _, A, B in pairs:
                # sides matter to these weights: either order of the pair is fine only if symmetric
                e = model.Edits(A, B, n_t)
                f = model.Edits(B, A, n_t)
                den = Fraction(e.edit_count + e.match_count if metric == 'b' else e.pbs)
                lo, hi = sorted((custom_total(c, e), custom_total(c, f)))
                want_den += den
                want_num += den - (lo if c[1] == 0 or lo == hi else lo)
            if c[1] == 0:
                near(sum(Fraction(num(x)) for x in got[0]), want_num, 'sum of numerators of actual agreement')
            near(sum(Fraction(num(x)) for x in got[1]), want_den, 'sum of denominators of actual agreement')
            require(all(n == n_t for _, n in rec.calls['t']), 'agreement: transpositions weighed with another n_t')
            require(rec.calls['a'] and rec.calls['s'] and rec.calls['t'], 'agreement: weighting functions not called')
            if want_den and c[1] == 0:
                near(segeval.actual_agreement_linear(data, **kw), want_num / want_den, 'actual agreement')
    return any(A != B for _, A, B in pairs), (case['kind'], 'pairs%d' % min(len(pairs), 6))


SUBS = {
    'P07': [Sub('pairs', gen_pair, check_b, 24000, enum=enum_pairs)],
    'P08': [Sub('pairs', gen_pair, check_s, 24000, enum=enum_pairs)],
    'P09': [Sub('pairs', gen_pair, check_cm, 20000, enum=enum_pairs),
            Sub('datasets', gen_cm_dataset, check_cm_dataset, 3000)],
    'P28': [Sub('functions', gen_weights, check_weights, 40000),
            Sub('applied', gen_applied, check_applied, 8000)],
}
