"""The search loop of one shard: enumeration, random cases, mutated cases, shrinking."""
import hashlib
import os
import signal
import sys
import time
import traceback
from collections import Counter
from harness.choice import RandomSource, ReplaySource, MutatingSource, rng_for
from harness.core import Violation, in_package, innermost_harness_file, short

CASE_CPU_SECONDS = 60      # cases take milliseconds


class HarnessError(Exception):
    pass


class Stuck(BaseException):
    pass


def _alarm(signum, frame):
    raise Stuck()


def run_case(sub, case):
    """Returns (nontrivial, labels); raises Violation; raises HarnessError."""
    try:
        signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_SECONDS)
        try:
            result = sub.check(case)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except Violation:
        raise
    except Stuck:
        raise Violation('no result after {0} seconds of CPU time'.format(CASE_CPU_SECONDS))
    except Exception as exception:
        tb = sys.exc_info()[2]
        text = ''.join(traceback.format_exception(type(exception), exception, tb)[-4:])
        if in_package(tb):
            raise Violation('unexpected exception: {0!r}\n{1}'.format(exception, text))
        where = innermost_harness_file(tb) or ''
        if (where.startswith('props' + os.sep) or where in ('sut.py', 'core.py')) and isinstance(
                exception, (TypeError, AttributeError, KeyError, IndexError, ValueError)):
            raise Violation('result of unexpected shape: {0!r}\n{1}'.format(exception, text))
        raise HarnessError(''.join(traceback.format_exception(type(exception), exception, tb)))
    if result is None:
        return False, ()
    return result


def digest(case):
    h = hashlib.blake2b(repr(case).encode('utf-8', 'surrogatepass'), digest_size=8)
    return int.from_bytes(h.digest(), 'big')


class Shard(object):
    def __init__(self, prop, sub, seed, shard, nshards, tier, deadline):
        self.prop, self.sub, self.seed = prop, sub, seed
        self.shard, self.nshards, self.tier, self.deadline = shard, nshards, tier, deadline
        self.evaluations = 0
        self.enumerated = 0
        self.enum_complete = None
        self.mutated = 0
        self.hashes = set()
        self.labels = Counter()
        self.samples = []
        self.violation = None
        self.cut = False
        self.corpus = {}
        self.history = []       # how to regenerate this shard's cases: ('enum'|'log', ...)

    def evaluate(self, case, log=None, mutated=False):
        self.evaluations += 1
        try:
            nontrivial, labels = run_case(self.sub, case)
        except Violation as v:
            self.found(case, log, v)
            return False
        if nontrivial:
            h = digest(case)
            if h not in self.hashes:
                self.hashes.add(h)
                if len(self.samples) < 3 and (len(self.hashes) in (1, 40, 400)):
                    self.samples.append(short(case, 600))
        labels = [l for l in labels if l]
        for l in labels:
            self.labels[l] += 1
        if log is not None and self.sub.mutate:
            key = frozenset(labels)
            old = self.corpus.get(key)
            if old is None and len(self.corpus) < 400 or (old is not None and len(log) < len(old)):
                self.corpus[key] = log
        return True

    def run(self):
        sub = self.sub
        if sub.enum is not None:
            complete = True
            for i, case in enumerate(sub.enum(self.tier)):
                if i % self.nshards != self.shard:
                    continue
                self.enumerated += 1
                if not self.evaluate(case):
                    return
                if (self.enumerated & 63) == 0 and time.time() > self.deadline:
                    complete = False
                    self.cut = True
                    break
            self.enum_complete = complete
        if sub.gen is None:
            return
        total = sub.quick if self.tier == 'quick' else sub.thorough
        count = -(-total // self.nshards)
        rng = rng_for('v1', self.seed, self.prop, sub.name, self.shard)
        for i in range(count):
            mutate = sub.mutate and i % 4 == 3 and self.corpus and rng.random() < 0.9
            if mutate:
                keys = list(self.corpus.values())
                base = keys[int(rng.random() * len(keys))]
                rate = (0.02, 0.1, 0.3)[int(rng.random() * 3)]
                source = MutatingSource(base, rng, rate, rng.random() < 0.5)
                self.mutated += 1
            else:
                source = RandomSource(rng)
            case = sub.gen(source)
            if not self.evaluate(case, source.log, mutate):
                return
            if time.time() > self.deadline:
                self.cut = True
                return

    # -- failure handling ---------------------------------------------------
    def found(self, case, log, violation):
        message = str(violation)
        original = case
        if log is not None:
            case, message = shrink(self.sub, log, case, message)
        self.violation = {'sub': self.sub.name, 'case': case, 'message': message,
                          'original': original, 'shard': self.shard, 'nshards': self.nshards,
                          'evaluation': self.evaluations, 'seed': self.seed, 'tier': self.tier}


def fails(sub, case):
    try:
        run_case(sub, case)
    except Violation as v:
        return str(v)
    except HarnessError:
        return None
    return None


def shrink(sub, log, case, message, attempts=3000, seconds=25):
    """Smallest choice list (shortest, then lexicographically) still violating."""
    best, best_case, best_message = list(log), case, message
    until = time.time() + seconds
    left = [attempts]
    seen = set()

    def attempt(candidate):
        nonlocal best, best_case, best_message
        key = tuple(candidate)
        if key in seen or left[0] <= 0 or time.time() > until:
            return False
        seen.add(key)
        left[0] -= 1
        source = ReplaySource(candidate)
        try:
            new_case = sub.gen(source)
        except Exception:
            return False
        new_log = source.log
        while new_log and new_log[-1] == 0:
            new_log = new_log[:-1]
        if (len(new_log), new_log) >= (len(best), best):
            return False
        m = fails(sub, new_case)
        if m is None:
            return False
        best, best_case, best_message = new_log, new_case, m
        return True

    improved = True
    while improved and left[0] > 0 and time.time() < until:
        improved = False
        width = max(1, len(best) // 2)
        while width >= 1:
            i = 0
            while i < len(best):
                if attempt(best[:i] + best[i + width:]):
                    improved = True
                else:
                    i += max(1, width // 2) if width > 8 else 1
            width //= 2
        for i in range(len(best)):
            if i < len(best) and best[i]:
                lo = 0
                for v in (0, 1, best[i] // 2, best[i] - 1):
                    if i < len(best) and lo <= v < best[i] and attempt(best[:i] + [v] + best[i + 1:]):
                        improved = True
                        break
    return best_case, best_message


def install():
    signal.signal(signal.SIGVTALRM, _alarm)
