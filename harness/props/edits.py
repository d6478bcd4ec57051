"""P03 exact accounting, P04 near-miss and substitution rules, P05 symmetry/locality, P06 statistics."""
from __future__ import division
import itertools
from collections import Counter
from fractions import Fraction
import segeval
from harness import gen, sut, model
from harness.core import Sub, require, fail, short, agree, num, near


# -- cases: pairs of boundary strings --------------------------------------------
def gen_strings(s):
    if s.bool(1, 5):
        m, n = gen.mass_pair(s, 1, 120)
        a, b = gen.sets_of(m), gen.sets_of(n)
    else:
        a, b = gen.string_pair(s)
    return {'a': a, 'b': b, 'n_t': gen.n_t(s), 'list': s.bool(1, 4)}


def enum_strings(tier):
    """Every pair of boundary strings of small scope."""
    quick = tier == 'quick'
    scopes = [(1, 5 if quick else 7, 6), (2, 3 if quick else 4, 4), (3, 2 if quick else 2, 3)]
    for types, longest, most in scopes:
        subsets = [list(c) for k in range(types + 1) for c in itertools.combinations(range(1, types + 1), k)]
        for length in range(0, longest + 1):
            for a in itertools.product(subsets, repeat=length):
                for b in itertools.product(subsets, repeat=length):
                    for n_t in range(1, min(most, length + 1) + 1):
                        yield {'a': [list(p) for p in a], 'b': [list(p) for p in b], 'n_t': n_t, 'list': False}
    for a, b in gen.long_pairs():
        yield {'a': gen.sets_of(a), 'b': gen.sets_of(b), 'n_t': 3, 'list': False}


def call(case):
    make = (lambda x: [set(p) for p in x]) if case['list'] else sut.string
    a, b = make(case['a']), make(case['b'])
    if case['n_t'] == 2 and len(a) % 2:
        return sut.edits(segeval.boundary_edit_distance(a, b))      # the default n_t
    return sut.edits(segeval.boundary_edit_distance(a, b, n_t=case['n_t']))


def one_sided(case):
    a = [set(p) for p in case['a']]
    b = [set(p) for p in case['b']]
    return [x - y for x, y in zip(a, b)], [y - x for x, y in zip(a, b)]


def features(case, adds, subs, trs):
    out = ['n_t%d' % min(case['n_t'], 5)]
    out += ['add'] * (len(adds) > 0) + ['sub'] * (len(subs) > 0) + ['transp'] * (len(trs) > 0)
    out += ['sub+transp'] * (bool(subs) and bool(trs)) + ['far transp'] * any(j - i > 1 for i, j, _ in trs)
    out += ['many types'] * (len({t for p in case['a'] + case['b'] for t in p}) > 1)
    out += ['transp>1'] * (len(trs) > 1) + ['add both sides'] * (len({x for _, x in adds}) > 1)
    return out


def check_accounting(case):
    adds, subs, trs = call(case)
    left_a, left_b = one_sided(case)
    used = set()
    for i, j, t in trs:
        require(0 <= i < j < len(left_a), 'transposition {0} names no two positions', (i, j, t))
        ok = (t in left_a[i] and t in left_b[j]) or (t in left_b[i] and t in left_a[j])
        require(ok, 'transposition {0}: type {1} is not missing from opposite strings there', (i, j, t), t)
        require((i, t) not in used and (j, t) not in used, 'transposition {0} reuses a boundary', (i, j, t))
        used.update(((i, t), (j, t)))
    for i, t in used:
        left_a[i].discard(t)
        left_b[i].discard(t)
    require(all(side in ('a', 'b') for _, side in adds), 'sides of {0}', short(adds))
    have_a = Counter(t for p in left_a for t in p)
    have_b = Counter(t for p in left_b for t in p)
    named_a = Counter(x for x, _ in subs) + Counter(t for t, side in adds if side == 'a')
    named_b = Counter(y for _, y in subs) + Counter(t for t, side in adds if side == 'b')
    require(named_a == have_a, 'boundaries only in a {0}, but additions and substitutions cover {1}',
            dict(have_a), dict(named_a))
    require(named_b == have_b, 'boundaries only in b {0}, but additions and substitutions cover {1}',
            dict(have_b), dict(named_b))
    feasible = positions_for(subs, left_a, left_b)
    require(feasible, 'substitutions {0} cannot all pair boundaries of one position each', short(subs))
    if case['a'] == case['b']:
        require(not adds and not subs and not trs, 'edits between identical strings')
    if case['n_t'] == 1:
        require(not trs, 'transpositions over 0 positions')
    return bool(adds or subs or trs), features(case, adds, subs, trs)


def positions_for(subs, left_a, left_b, budget=20000):
    """Whether every substitution can be given a position whose boundaries it pairs."""
    avail = [(set(x), set(y)) for x, y in zip(left_a, left_b) if x and y]
    order = sorted(subs, key=lambda p: sum(1 for x, y in avail if p[0] in x and p[1] in y))
    steps = [budget]

    def place(k):
        if k == len(order):
            return True
        x, y = order[k]
        tried = set()
        for xs, ys in avail:
            if x in xs and y in ys:
                key = (frozenset(xs), frozenset(ys))
                if key in tried:
                    continue
                tried.add(key)
                steps[0] -= 1
                if steps[0] <= 0:
                    return True
                xs.discard(x)
                ys.discard(y)
                if place(k + 1):
                    return True
                xs.add(x)
                ys.add(y)
        return False
    return place(0)


def check_rules(case):
    adds, subs, trs = call(case)
    e = model.Edits(case['a'], case['b'], case['n_t'])
    require(Counter(trs) == Counter(e.transpositions), 'transpositions are {0}, the rules give {1}',
            short(sorted(trs)), short(sorted(e.transpositions)))
    require(len(subs) == e.sub_count, '{0} substitutions, as many as possible are {1}', len(subs), e.sub_count)
    cost = sum(abs(x - y) for x, y in subs)
    require(cost == e.sub_cost, 'total type distance {0}, smallest possible is {1}', cost, e.sub_cost)
    require(len(adds) == e.add_count, '{0} additions, the excess is {1}', len(adds), e.add_count)
    possible = e.expected_lists()
    if possible is not None:
        got = (tuple(sorted(subs)), tuple(sorted(adds)))
        require(got in possible, 'substitutions and additions are {0}, the rules give {1}', short(got),
                short(sorted(possible)[:2]))
    blocked = any(x and y for x, y in zip(*one_sided(case))) and bool(trs)
    return bool(trs or subs), features(case, adds, subs, trs) + ['near substitution'] * blocked + \
        ['tie'] * (not e.unique)


def gen_greedy(s):
    """Clusters of boundaries of one or two types within n_t of each other."""
    n = s.int(2, 12)
    types = s.choice(([1], [1], [1, 2], [1, 2, 3]))
    a, b = [], []
    for _ in range(n):
        x = {t: s.weighted([(2, 0), (3, 1), (3, 2), (1, 3)]) for t in types}
        a.append(sorted(t for t in types if x[t] & 1))
        b.append(sorted(t for t in types if x[t] & 2))
    return {'a': a, 'b': b, 'n_t': s.int(2, 7), 'list': False}


def gen_pairing(s):
    """A few positions with several differing types each."""
    a, b = [], []
    for _ in range(s.int(1, 3)):
        pool = sorted({s.int(1, 12) if s.bool(3, 4) else s.choice((0, -3, 100, 257, 10 ** 6)) for _ in range(s.int(2, 7))})
        a.append(sorted(s.subset(pool)))
        b.append(sorted(s.subset(pool)))
    gen._tame(a, b, 150)
    for _ in range(s.draw(3)):
        at = s.draw(len(a) + 1)
        a.insert(at, [])
        b.insert(at, [])
    return {'a': a, 'b': b, 'n_t': s.int(1, 4), 'list': False}


# -- P05 --------------------------------------------------------------------
def gen_meta(s):
    a, b = gen.string_pair(s, 0, 30)
    c, d = gen.string_pair(s, 0, 14)
    return {'a': a, 'b': b, 'c': c, 'd': d, 'n_t': gen.n_t(s), 'gap': s.draw(4),
            'shift': s.choice((1, -1, 2, 10, -7, 1000, s.int(-30, 30))), 'pad': [gen.notable(s, s.draw(9), 1200), s.draw(9)],
            'more': gen.notable(s, s.int(1, 6), 300), 'weight': gen.weight(s)}


def parts(r):
    adds, subs, trs = r
    return (Counter(t for t, x in adds if x == 'a'), Counter(t for t, x in adds if x == 'b'), Counter(subs), Counter(trs))


def check_meta(case):
    n_t = case['n_t']
    A, B = case['a'], case['b']
    a, b = sut.string(A), sut.string(B)
    kw = dict(n_t=n_t, weight=sut.weights(case['weight']), boundary_format=sut.fmt('sets'))

    def bed(x, y, k=n_t):
        return sut.edits(segeval.boundary_edit_distance(sut.string(x), sut.string(y), n_t=k))
    base = bed(A, B)
    adds, subs, trs = base
    e = model.Edits(A, B, n_t)
    # symmetry
    adds2, subs2, trs2 = bed(B, A)
    require(Counter(trs) == Counter(trs2), 'transpositions change when swapped: {0} and {1}', short(trs), short(trs2))
    for side, other in (('a', 'b'), ('b', 'a')):
        require(sum(1 for x in adds if x[1] == side) == sum(1 for x in adds2 if x[1] == other),
                'additions do not change sides when swapped: {0} and {1}', short(adds), short(adds2))
    require(len(subs) == len(subs2) and sum(abs(x - y) for x, y in subs) == sum(abs(x - y) for x, y in subs2),
            'substitutions change when swapped: {0} and {1}', short(subs), short(subs2))
    if e.unique:
        require(Counter((y, x) for x, y in subs) == Counter(subs2), 'substituted types are not exchanged: {0} and {1}',
                short(subs), short(subs2))
        require(Counter((t, 'b' if x == 'a' else 'a') for t, x in adds) == Counter(adds2),
                'added types change when swapped: {0} and {1}', short(adds), short(adds2))
    values = {}
    for name in ('boundary_similarity', 'segmentation_similarity'):
        if a:
            fn = getattr(segeval, name)
            values[name] = fn(a, b, **kw)
            agree(values[name], fn(b, a, **kw), name + ' when the segmentations are swapped')
    # types shifted by a constant
    c = case['shift']
    shift = lambda x: [[t + c for t in p] for p in x]
    sa, ss, st = bed(shift(A), shift(B))
    require(Counter(st) == Counter((i, j, t + c) for i, j, t in trs), 'transpositions change when types shift by {0}', c)
    require(len(sa) == len(adds) and len(ss) == len(subs) and
            sum(abs(x - y) for x, y in ss) == sum(abs(x - y) for x, y in subs), 'edits change when types shift by {0}', c)
    if e.unique:
        require(Counter(sa) == Counter((t + c, x) for t, x in adds) and
                Counter(ss) == Counter((x + c, y + c) for x, y in subs), 'edits change when types shift by {0}', c)
    if a:
        for name, v in values.items():
            agree(getattr(segeval, name)(sut.string(shift(A)), sut.string(shift(B)), **kw), v,
                  '{0} when types shift by {1}'.format(name, c))
    # boundary-free units before and after
    pre, post = case['pad']
    pad = lambda x: [[]] * pre + [list(p) for p in x] + [[]] * post
    pa, ps, pt = bed(pad(A), pad(B))
    require(Counter(pt) == Counter((i + pre, j + pre, t) for i, j, t in trs),
            'transpositions change when boundary-free units are added')
    require(len(pa) == len(adds) and len(ps) == len(subs), 'edits change when boundary-free units are added')
    if e.unique:
        require(Counter(pa) == Counter(adds) and Counter(ps) == Counter(subs),
                'edits change when boundary-free units are added')
    if a:
        agree(segeval.boundary_similarity(sut.string(pad(A)), sut.string(pad(B)), **kw),
              values['boundary_similarity'], 'boundary similarity when boundary-free units are added')
    # concatenation
    C, D = case['c'], case['d']
    other = bed(C, D)
    gap = n_t - 1 + case['gap']
    join = lambda x, y: [list(p) for p in x] + [[]] * gap + [list(p) for p in y]
    ja, js, jt = bed(join(A, C), join(B, D))
    off = len(A) + gap
    require(Counter(jt) == Counter(trs) + Counter((i + off, j + off, t) for i, j, t in other[2]),
            'transpositions of concatenated texts are not those of the parts: {0}', short(jt))
    f = model.Edits(C, D, n_t)
    require(len(ja) == len(adds) + len(other[0]) and len(js) == len(subs) + len(other[1]),
            'edits of concatenated texts are not those of the parts')
    if e.unique and f.unique:
        require(Counter(ja) == Counter(adds) + Counter(other[0]) and Counter(js) == Counter(subs) + Counter(other[1]),
                'edits of concatenated texts are not those of the parts')
    # larger n_t
    larger = bed(A, B, n_t + case['more'])
    require(sum(len(x) for x in larger) <= sum(len(x) for x in base), 'n_t {0} gives more edits than n_t {1}',
            n_t + case['more'], n_t)
    return bool(adds or subs or trs), features(dict(case), adds, subs, trs)


def gen_meta_masses(s):
    a, b = gen.mass_pair(s, 1, 60)
    return {'a': a, 'b': b, 'n_t': gen.n_t(s), 'pad': [gen.notable(s, s.draw(12), 3000), gen.notable(s, s.draw(12), 3000)]}


def check_meta_masses(case):
    a, b, n_t = case['a'], case['b'], case['n_t']
    pre, post = case['pad']

    def longer(m):
        m = list(m)
        m[0] += pre
        m[-1] += post
        return tuple(m)
    for name in ('boundary_similarity', 'segmentation_similarity'):
        fn = getattr(segeval, name)
        agree(fn(tuple(a), tuple(b), n_t=n_t), fn(tuple(b), tuple(a), n_t=n_t), name + ' when swapped')
    agree(segeval.boundary_similarity(longer(a), longer(b), n_t=n_t), segeval.boundary_similarity(tuple(a), tuple(b), n_t=n_t),
          'boundary similarity when boundary-free units are added')
    x = segeval.boundary_statistics(tuple(a), tuple(b), n_t=n_t)
    y = segeval.boundary_statistics(tuple(b), tuple(a), n_t=n_t)
    require(len(x['additions']) == len(y['additions']) and sorted(map(tuple, x['transpositions'])) ==
            sorted(map(tuple, y['transpositions'])), 'edits change when swapped')
    sides = Counter(t[1] for t in x['additions'])
    sides2 = Counter(t[1] for t in y['additions'])
    require(sides['a'] == sides2['b'] and sides['b'] == sides2['a'], 'additions do not change sides when swapped')
    return a != b, ('n_t%d' % min(n_t, 5), 'transp' if x['transpositions'] else '')


# -- P06 ----------------------------------------------------------------------
def gen_stats(s):
    if s.bool():
        f = s.choice(sut.FORMATS)
        m, n = gen.mass_pair(s, 1 if f in ('mass', 'position') else 2, 120)
        case = {'format': f, 'a': m, 'b': n, 'la': gen.labels(s, len(m)), 'lb': gen.labels(s, len(n))}
    else:
        a, b = gen.string_pair(s, 1)
        case = {'format': 'strings', 'a': a, 'b': b}
    case['n_t'] = gen.n_t(s)
    case['weight'] = s.choice(('default', 's', 't', 'st', 'custom'))
    case['declared'] = s.draw(10)
    return case


KEYS = {'count_edits', 'additions', 'substitutions', 'transpositions', 'full_misses', 'boundaries_all', 'matches',
        'pbs', 'boundary_types'}


def check_stats(case):
    f, n_t = case['format'], case['n_t']
    if f == 'strings':
        A, B = case['a'], case['b']
        x, y = sut.string(A), sut.string(B)
        kind = sut.fmt('sets')
    else:
        A, B = [sorted(p) for p in model.bstring(case['a'])], [sorted(p) for p in model.bstring(case['b'])]
        x, y = sut.encode(case['a'], f, case['la']), sut.encode(case['b'], f, case['lb'])
        kind = sut.fmt(f)
    if case['weight'] == 'custom':
        fa = lambda additions: 3 * len(additions) + sum(1 for t in additions if tuple(t)[1] == 'a')
        fs = lambda substitutions, max_s, min_s=1: 10007 * len(substitutions) + max_s * 5 - min_s * 3
        ft = lambda transpositions, max_n: 100003 * sum(
            abs(tuple(t)[0] - tuple(t)[1]) for t in transpositions) + max_n * 7
    else:
        fa, fs, ft = sut.weights(case['weight'])
    given = sut.declared(case.get('declared', 0), [t for p in list(A) + list(B) for t in p])
    given = {} if given is None else {'boundary_types': given}
    stats = segeval.boundary_statistics(x, y, boundary_format=kind, n_t=n_t, weight=(fa, fs, ft), **given)
    require(KEYS <= set(stats), 'statistics lack {0}', sorted(KEYS - set(stats)))
    adds, subs, trs = sut.edits((stats['additions'], stats['substitutions'], stats['transpositions']))
    direct = sut.edits(segeval.boundary_edit_distance(sut.string(A), sut.string(B), n_t=n_t))
    require((Counter(adds), Counter(subs), Counter(trs)) == tuple(Counter(x) for x in direct),
            'edits are not those of boundary edit distance: {0} and {1}', short((adds, subs, trs)), short(direct))
    matches, misses, everything, types = Counter(), Counter(), 0, set()
    for p, q in zip(A, B):
        p, q = set(p), set(q)
        matches.update(p & q)
        misses.update(p ^ q)
        everything += len(p) + len(q)
        types |= p | q
    types = types or {1}
    require(Counter(stats['matches']) == matches, 'matches {0}, expected {1}', short(stats['matches']), dict(matches))
    require(Counter(stats['full_misses']) == misses, 'full_misses {0}, expected {1}', short(stats['full_misses']),
            dict(misses))
    require(stats['boundaries_all'] == everything, 'boundaries_all {0}, expected {1}', stats['boundaries_all'], everything)
    require(set(stats['boundary_types']) == types, 'boundary_types {0}, expected {1}', short(stats['boundary_types']), types)
    require(stats['pbs'] == len(A) * len(types), 'pbs {0}, expected {1}', stats['pbs'], len(A) * len(types))
    n_match, n_miss = len(stats['matches']), len(stats['full_misses'])
    require(2 * n_match + n_miss == stats['boundaries_all'], 'twice the matches plus misses is not boundaries_all')
    require(n_miss == len(adds) + 2 * len(subs) + 2 * len(trs), 'misses are not those of the edits')
    expected = num(fa(stats['additions'])) + num(fs(stats['substitutions'], max(types), min(types))) + \
        num(ft(stats['transpositions'], n_t))
    near(stats['count_edits'], expected, 'count_edits')
    if case['weight'] != 'custom':
        near(stats['count_edits'], model.Edits(A, B, n_t).count_edits(case['weight']), 'count_edits')
    return bool(adds or subs or trs), features(dict(case, a=A, b=B), adds, subs, trs) + [f, case['weight']]


SUBS = {
    'P03': [
        Sub('strings', gen_strings, check_accounting, 40000, enum=enum_strings),
        Sub('clusters', gen_greedy, check_accounting, 20000),
        Sub('pairings', gen_pairing, check_accounting, 15000),
    ],
    'P04': [
        Sub('strings', gen_strings, check_rules, 30000, enum=enum_strings),
        Sub('clusters', gen_greedy, check_rules, 30000),
        Sub('pairings', gen_pairing, check_rules, 15000),
    ],
    'P05': [
        Sub('strings', gen_meta, check_meta, 12000),
        Sub('masses', gen_meta_masses, check_meta_masses, 8000),
    ],
    'P06': [Sub('statistics', gen_stats, check_stats, 24000)],
}
