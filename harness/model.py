"""Independent reference models (exact arithmetic, no code of the package)."""
from __future__ import division
from collections import Counter
from fractions import Fraction
from itertools import permutations, combinations


# -- formats ----------------------------------------------------------------
def bstring(masses):
    """Boundary string of a mass sequence: list of sets."""
    ends, total = set(), 0
    for m in masses:
        total += m
        ends.add(total)
    return [{1} if p in ends else set() for p in range(1, total)]


def segment_ids(masses):
    out = []
    for i, m in enumerate(masses):
        out += [i] * m
    return out


# -- boundary edit distance --------------------------------------------------
def bed(a, b, n_t):
    """(transpositions set, leftover [(only_a, only_b)] per position)."""
    a = [set(p) for p in a]
    b = [set(p) for p in b]
    only_a = [x - y for x, y in zip(a, b)]
    only_b = [y - x for x, y in zip(a, b)]
    orig_a = [frozenset(x) for x in only_a]
    orig_b = [frozenset(x) for x in only_b]
    n = len(a)
    used = set()
    transpositions = set()
    for span in range(1, min(n_t, n)):
        for i in range(n - span):
            j = i + span
            for t in (orig_a[i] & orig_b[j]) | (orig_b[i] & orig_a[j]):
                if (i, t) in used or (j, t) in used:
                    continue
                if only_a[i] and only_b[i] and only_a[j] and only_b[j]:
                    continue
                used.add((i, t))
                used.add((j, t))
                transpositions.add((i, j, t))
                only_a[i].discard(t)
                only_b[i].discard(t)
                only_a[j].discard(t)
                only_b[j].discard(t)
    return transpositions, list(zip(only_a, only_b))


_pairings = {}


def pairings(xs, ys):
    """(minimal total distance, set of minimal pairings) pairing as many as possible;
    a pairing is a frozenset of (x, y)."""
    key = (frozenset(xs), frozenset(ys))
    hit = _pairings.get(key)
    if hit is not None:
        return hit
    sx, sy = sorted(xs), sorted(ys)
    best, found = None, set()
    if len(sx) <= len(sy):
        options = (tuple(zip(sx, p)) for p in permutations(sy, len(sx)))
    else:
        options = (tuple(zip(p, sy)) for p in permutations(sx, len(sy)))
    for option in options:
        cost = sum(abs(x - y) for x, y in option)
        if best is None or cost < best:
            best, found = cost, {frozenset(option)}
        elif cost == best:
            found.add(frozenset(option))
    if len(_pairings) > 20000:
        _pairings.clear()
    _pairings[key] = best, found
    return best, found


class Edits(object):
    """Everything determined about the edits of a pair by the rules."""

    def __init__(self, a, b, n_t):
        self.n = len(a)
        self.n_t = n_t
        self.transpositions, self.left = bed(a, b, n_t)
        self.types = set()
        for p in a:
            self.types.update(p)
        for p in b:
            self.types.update(p)
        self.any_types = bool(self.types)
        if not self.types:
            self.types = {1}
        self.matches = Counter()
        for x, y in zip(a, b):
            self.matches.update(set(x) & set(y))
        self.match_count = sum(self.matches.values())
        self.sub_count = self.sub_cost = self.add_a = self.add_b = 0
        self.options = []           # per position: list of (subs Counter, adds Counter)
        for xs, ys in self.left:
            if not xs and not ys:
                continue
            k = min(len(xs), len(ys))
            cost, found = pairings(xs, ys)
            self.sub_count += k
            self.sub_cost += cost
            self.add_a += len(xs) - k
            self.add_b += len(ys) - k
            alternatives = []
            for pairing in found:
                used_x = {x for x, _ in pairing}
                used_y = {y for _, y in pairing}
                adds = [(x, 'a') for x in xs - used_x] + [(y, 'b') for y in ys - used_y]
                alternatives.append((sorted(pairing), sorted(adds)))
            self.options.append(alternatives)
        self.t_cost = sum(j - i for i, j, _ in self.transpositions)
        self.t_count = len(self.transpositions)
        self.unique = all(len(o) == 1 for o in self.options)

    @property
    def add_count(self):
        return self.add_a + self.add_b

    @property
    def edit_count(self):
        return self.add_count + self.sub_count + self.t_count

    @property
    def pbs(self):
        return self.n * len(self.types)

    def expected_lists(self, limit=400):
        """Set of possible (sorted subs, sorted adds) outcomes, or None if too many."""
        outcomes = {((), ())}
        for alternatives in self.options:
            new = set()
            for subs, adds in outcomes:
                for s2, a2 in alternatives:
                    new.add((tuple(sorted(subs + tuple(s2))), tuple(sorted(adds + tuple(a2)))))
            outcomes = new
            if len(outcomes) > limit:
                return None
        return outcomes

    def weights(self, kind):
        """(additions, substitutions, transpositions) weights for a named choice."""
        spread = max(self.types) - min(self.types) + 1
        sub = Fraction(self.sub_cost, spread)
        tr = Fraction(self.t_cost, self.n_t)
        if kind in ('s', 'st'):
            sub = Fraction(self.sub_count)
        if kind in ('t', 'st'):
            tr = Fraction(self.t_count)
        return Fraction(self.add_count), sub, tr

    def count_edits(self, kind='default'):
        return sum(self.weights(kind))

    def b_parts(self, kind='default'):
        den = self.edit_count + self.match_count
        return den - self.count_edits(kind), den

    def b_value(self, kind='default'):
        n, d = self.b_parts(kind)
        return n / d if d else Fraction(1)

    def s_parts(self, kind='default'):
        return self.pbs - self.count_edits(kind), self.pbs

    def s_value(self, kind='default'):
        n, d = self.s_parts(kind)
        return n / d if d else Fraction(1)


# -- windows -------------------------------------------------------------------
def half_even(q):
    """Round a non-negative Fraction half to even."""
    whole = q.numerator // q.denominator
    rest = q - whole
    if rest > Fraction(1, 2) or (rest == Fraction(1, 2) and whole % 2):
        whole += 1
    return whole


def window_size(masses_list, rounder=half_even):
    total = sum(sum(m) for m in masses_list)
    count = sum(len(m) for m in masses_list)
    return max(2, rounder(Fraction(total, 2 * count)))


def pk_parts(hyp, ref, k):
    h, r = segment_ids(hyp), segment_ids(ref)
    n = len(r)
    bad = sum(1 for i in range(n - k) if (h[i] == h[i + k]) != (r[i] == r[i + k]))
    return bad, max(0, n - k)


def wd_parts(hyp, ref, k, lamprier=False):
    n = sum(ref)
    if lamprier:
        hyp = [k] + list(hyp) + [k]
        ref = [k] + list(ref) + [k]
    h, r = segment_ids(hyp), segment_ids(ref)       # ids rise by 1 at each boundary
    bad = sum(1 for i in range(len(r) - k) if h[i + k] - h[i] != r[i + k] - r[i])
    if lamprier:
        return bad, n + k + 1
    return bad, n - k


# -- agreement ------------------------------------------------------------------
class Agreement(object):
    """dataset: [(item, [(coder, boundary string)])], all coders on all items."""

    def __init__(self, dataset, n_t=2, metric='b', weight='default'):
        self.comparisons = []       # (num, den, pbs)
        self.coders = {}
        items = [(item, dict(codings)) for item, codings in dataset]
        coders = sorted({c for _, codings in items for c in codings}, key=repr)
        for m, n in combinations(coders, 2):
            for item, codings in items:
                a, b = codings[m], codings[n]
                e = Edits(a, b, n_t)
                if metric == 'own':
                    num, den = sum(len(set(x) & set(y)) for x, y in zip(a, b)), sum(len(set(x) | set(y)) for x, y in zip(a, b))
                else:
                    num, den = e.b_parts(weight) if metric == 'b' else e.s_parts(weight)
                self.comparisons.append((num, den, e.pbs))
                for c, string in ((m, a), (n, b)):
                    self.coders.setdefault(c, []).append((sum(len(p) for p in string), e.pbs))

    @property
    def a_a(self):
        den = sum(d for _, d, _ in self.comparisons)
        return Fraction(sum(n for n, _, _ in self.comparisons)) / den if den else Fraction(1)

    @property
    def pi_e(self):
        rates = [Fraction(b, p) for entries in self.coders.values() for b, p in entries if p]
        return (sum(rates) / len(rates)) ** 2

    @property
    def kappa_e(self):
        rates = {c: Fraction(sum(b for b, _ in e), sum(p for _, p in e)) for c, e in self.coders.items()}
        products = [rates[m] * rates[n] for m, n in combinations(sorted(rates, key=repr), 2)]
        return sum(products) / len(products)


# -- precision / recall ----------------------------------------------------------
class Matrix(object):
    """cells: {(predicted, actual): Fraction}; classes: list."""

    def __init__(self, cells, classes):
        self.cells, self.classes = cells, list(classes)
        self.rows, self.cols = {}, {}
        for (p, a), v in cells.items():
            self.rows[p] = self.rows.get(p, Fraction(0)) + v
            self.cols[a] = self.cols.get(a, Fraction(0)) + v

    def row(self, c):
        return self.rows.get(c, Fraction(0))

    def col(self, c):
        return self.cols.get(c, Fraction(0))

    def diag(self, c):
        return self.cells.get((c, c), Fraction(0))

    def precision(self, c):
        d = self.diag(c)
        return d / self.row(c) if d else Fraction(0)

    def recall(self, c):
        d = self.diag(c)
        return d / self.col(c) if d else Fraction(0)

    def f_parts(self, c, beta):
        p, r = self.precision(c), self.recall(c)
        return (1 + beta ** 2) * p * r, beta ** 2 * p + r

    def fmeasure(self, c, beta):
        n, d = self.f_parts(c, beta)
        return n / d if n else Fraction(0)

    def micro(self, which, beta=Fraction(1)):
        n = d = Fraction(0)
        for c in self.classes:
            if which == 'f':
                x, y = self.f_parts(c, beta)
            else:
                x, y = self.diag(c), self.row(c) if which == 'p' else self.col(c)
            n += x
            d += y
        return n / d if n else Fraction(0)

    def macro(self, which, beta=Fraction(1)):
        if not self.classes:
            return Fraction(0)
        values = [self.precision(c) if which == 'p' else self.recall(c) if which == 'r' else self.fmeasure(c, beta)
                  for c in self.classes]
        return sum(values) / len(values)
