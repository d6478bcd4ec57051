"""Violations, result normalisation and comparison."""
from __future__ import division
import os
import sys
from decimal import Decimal
from fractions import Fraction

REPO = os.environ.get('VERIF_REPO', '/repo')


class Violation(Exception):
    """The property does not hold for the case being checked."""


class Sub(object):
    """One family of cases of a property: generator, check, enumeration."""

    def __init__(self, name, gen, check, quick=2000, thorough=None, enum=None,
                 rule='', mutate=True, exhaustive_note=None):
        self.name, self.gen, self.check = name, gen, check
        self.quick = quick                              # random cases in all shards together
        self.thorough = thorough if thorough is not None else quick * 25
        self.enum = enum                                # enum(tier) -> iterator of cases
        self.rule = rule                                # what makes a case non-trivial
        self.mutate = mutate                            # also mutate earlier cases
        self.exhaustive_note = exhaustive_note


def fail(fmt, *args):
    raise Violation(fmt.format(*args) if args else fmt)


def require(condition, fmt, *args):
    if not condition:
        raise Violation(fmt.format(*args) if args else fmt)


def short(x, limit=300):
    s = repr(x)
    return s if len(s) <= limit else s[:limit] + '...'


def num(x, what='value'):
    """A finite number, as a Fraction."""
    if isinstance(x, bool) or not isinstance(x, (int, float, Decimal, Fraction)):
        raise Violation('{0} is not a number: {1}'.format(what, short(x)))
    try:
        return Fraction(x)
    except (ValueError, OverflowError):
        raise Violation('{0} is not finite: {1}'.format(what, short(x)))


EXACT = Fraction(1, 10 ** 20)      # decimal results (28 significant digits)
FLOAT = Fraction(1, 10 ** 9)       # results involving float division


def near(x, expected, what='value', scale=None, loose=False):
    """x (a result) equals expected (a Fraction) up to its type's rounding."""
    v = num(x, what)
    tol = FLOAT if loose or isinstance(x, float) else EXACT
    bound = tol * max(1, abs(expected), scale or 0)
    if abs(v - expected) > bound:
        raise Violation('{0} is {1}, expected {2}'.format(what, short(x), fshow(expected)))
    return v


def fshow(f):
    f = Fraction(f)
    return str(f) if f.denominator == 1 else '{0} (= {1:.10f})'.format(f, float(f))


def canon(x):
    """Comparable form of a result: numbers by value, inner lists as multisets,
    mappings and sets without order; namedtuples as plain tuples."""
    return _canon(x, True)


def _canon(x, top):
    if x is None or isinstance(x, (bool, str, bytes)):
        return x
    if isinstance(x, (int, float, Decimal, Fraction)):
        return num(x)
    if isinstance(x, dict):
        return ('dict', {k: _canon(v, False) for k, v in x.items() if not _zero(v)})
    if isinstance(x, (set, frozenset)):
        return ('set', frozenset(_hashable(_canon(v, False)) for v in x))
    if isinstance(x, tuple):
        return ('seq', [_canon(v, False) for v in x])
    if isinstance(x, list) or hasattr(x, '__iter__'):
        inner = [_canon(v, False) for v in x]
        return ('bag', sorted(inner, key=repr))
    return ('object', repr(x))


def _zero(v):
    # a cell that was read but is 0 equals a cell never touched
    return not isinstance(v, (dict, bool, str)) and isinstance(v, (int, Decimal)) and v == 0


def _hashable(c):
    return tuple(c) if isinstance(c, list) else c


def same(x, y, exact=False):
    """Whether two canonical forms are equal, numbers up to decimal rounding."""
    if isinstance(x, Fraction) and isinstance(y, Fraction):
        if x == y:
            return True
        return not exact and abs(x - y) <= Fraction(1, 10 ** 12) * max(1, abs(x), abs(y))
    if type(x) is not type(y):
        return False
    if isinstance(x, (list, tuple)):
        return len(x) == len(y) and all(same(a, b, exact) for a, b in zip(x, y))
    if isinstance(x, dict):
        return set(x) == set(y) and all(same(x[k], y[k], exact) for k in x)
    return x == y


def agree(x, y, what, exact=False):
    """Two results must be equal."""
    if not same(canon(x), canon(y), exact):
        raise Violation('{0}: {1} != {2}'.format(what, short(x), short(y)))


def raises(kinds, fn, what):
    """fn() must raise one of the exception classes and return nothing."""
    try:
        value = fn()
    except kinds:
        return
    except Exception as exception:
        raise Violation('{0}: raised {1!r} instead of {2}'.format(
            what, exception, _names(kinds)))
    raise Violation('{0}: returned {1} instead of raising {2}'.format(
        what, short(value), _names(kinds)))


def _names(kinds):
    return '/'.join(k.__name__ for k in (kinds if isinstance(kinds, tuple) else (kinds,)))


def in_package(tb):
    """Whether a traceback passes through the package under test."""
    root = os.path.join(os.path.realpath(REPO), 'segeval') + os.sep
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


def innermost_harness_file(tb):
    root = os.path.dirname(os.path.abspath(__file__)) + os.sep
    found = None
    while tb is not None:
        name = os.path.abspath(tb.tb_frame.f_code.co_filename)
        if name.startswith(root):
            found = name[len(root):]
        tb = tb.tb_next
    return found
