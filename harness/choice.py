"""Choice sources: every random decision of a generator is one draw(n) -> [0, n).

A generated case is thus a pure function of a list of integers, which is what
gets shrunk, mutated and (for library-driven lanes) supplied from outside.
Draw 0 is always the simplest alternative.
"""
from random import Random


class Source(object):
    def draw(self, n):
        raise NotImplementedError

    # -- derived decisions -------------------------------------------------
    def int(self, lo, hi):
        """Integer in [lo, hi], lo simplest."""
        return lo + self.draw(hi - lo + 1)

    def bool(self, num=1, den=2):
        """True with probability num/den; False simplest."""
        return self.draw(den) >= den - num

    def choice(self, options):
        return options[self.draw(len(options))]

    def weighted(self, pairs):
        """pairs: [(weight, value)]; the first is the simplest."""
        x = self.draw(sum(w for w, _ in pairs))
        for w, v in pairs:
            if x < w:
                return v
            x -= w

    def many(self, fn, lo=0, hi=8, num=2, den=3):
        """List of lo..hi elements; each further one with probability num/den."""
        out = []
        while len(out) < hi and (len(out) < lo or self.bool(num, den)):
            out.append(fn(self))
        return out

    def shuffled(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            j = i - self.draw(i + 1)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def subset(self, seq, num=1, den=2):
        return [x for x in seq if self.bool(num, den)]


class RandomSource(Source):
    def __init__(self, rng):
        self.rng = rng
        self.log = []

    def draw(self, n):
        v = int(self.rng.random() * n) if n > 1 else 0
        self.log.append(v)
        return v


class ReplaySource(Source):
    """Replays a list; past its end, everything is simplest."""

    def __init__(self, values):
        self.values = values
        self.pos = 0
        self.log = []

    def draw(self, n):
        v = self.values[self.pos] if self.pos < len(self.values) else 0
        self.pos += 1
        if v >= n:
            v = n - 1
        self.log.append(v)
        return v


class MutatingSource(Source):
    """Replays a list with some positions replaced at random, then random."""

    def __init__(self, values, rng, rate, tail):
        self.values, self.rng, self.rate, self.tail = values, rng, rate, tail
        self.pos = 0
        self.log = []

    def draw(self, n):
        r = self.rng
        if self.pos < len(self.values):
            v = self.values[self.pos]
            self.pos += 1
            if r.random() < self.rate or v >= n:
                v = int(r.random() * n)
        elif self.tail:
            v = int(r.random() * n)
        else:
            v = 0
        self.log.append(v)
        return v


class BytesSource(Source):
    """Decodes fuzzer bytes; past their end, everything is simplest."""

    def __init__(self, data):
        self.data = data
        self.pos = 0
        self.log = []

    def draw(self, n):
        v = 0
        if n > 1 and self.pos < len(self.data):
            v = self.data[self.pos]
            self.pos += 1
            if n > 256 and self.pos < len(self.data):
                v = v * 256 + self.data[self.pos]
                self.pos += 1
            v %= n
        self.log.append(v)
        return v


def rng_for(*parts):
    return Random(':'.join(str(p) for p in parts))
