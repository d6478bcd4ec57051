"""Building arguments for the package under test from plain cases."""
import itertools
import zlib
import segeval
from harness import gen
from harness.core import require, short

FORMATS = ('mass', 'position', 'nltk', 'sets')


def fmt(name):
    return getattr(segeval.BoundaryFormat, name)


def weights(kind):
    a = segeval.weight_a
    s = segeval.weight_s if kind in ('s', 'st') else segeval.weight_s_scale
    t = segeval.weight_t if kind in ('t', 'st') else segeval.weight_t_scale
    return a, s, t


_made = []


def once(made):
    """Sometimes one of the objects made last that equals this (immutable) one: whether equal arguments
    are one object is up to the user."""
    if len(made) < 400 and zlib.crc32(repr(made).encode('utf-8', 'surrogatepass')) % 3:
        for other in _made:
            if type(other) is type(made) and repr(other) == repr(made):
                return other
        _made.append(made)
        del _made[:-3]
    return made


def string(positions):
    """Boundary string in the form the package expects."""
    return once(tuple(frozenset(p) for p in positions))


def encode(masses, format_name, labels=None, listy=False):
    """masses written in a format."""
    made = _encode(masses, format_name, labels, listy)
    return made if listy else once(made)


def _encode(masses, format_name, labels, listy):
    wrap = list if listy else tuple
    if format_name == 'mass':
        return wrap(masses)
    if format_name == 'position':
        labels = labels if labels is not None else list(range(1, len(masses) + 1))
        return wrap(gen.positions_of(masses, labels))
    if format_name == 'nltk':
        return gen.nltk_of(masses)
    make = set if listy else frozenset
    return wrap(make(p) for p in gen.sets_of(masses))


def masses_of(segmentation, format_name):
    """Masses of what encode() made."""
    if format_name == 'mass':
        return list(segmentation)
    if format_name == 'position':
        return [len(list(g)) for _, g in itertools.groupby(segmentation)]
    return [len(x) + 1 for x in segmentation.split('1')]


def declared(k, occurring):
    """Value of the option boundary_types, which restricts nothing, or None to leave it out."""
    types = sorted(set(occurring))
    return (None, None, None, None, None, {1}, set(types), set(types) | {7, 99}, set(types[1:]), ())[k]


def built(data, form, kwargs, vary):
    """A Dataset of data {item: {coder: segmentation}}, made in one of the ways a user may make it."""
    style = zlib.crc32(repr(sorted(data, key=repr)).encode('utf-8', 'surrogatepass') + repr(
        [len(cs) for cs in data.values()]).encode('ascii')) if vary and data and not kwargs else 0
    if style & 1024:
        # equal segmentations are one object
        seen = {}
        for cs in data.values():
            for c, m in cs.items():
                cs[c] = seen.setdefault((type(m).__name__, repr(m)), m)
    style %= 8
    if style == 4:
        out = segeval.Dataset(boundary_format=form)
        for item, cs in data.items():
            out[item] = cs
        return out
    if style == 5:
        out = segeval.Dataset(boundary_format=form)
        for item, cs in data.items():
            out[item]
            for c, m in cs.items():
                out[item][c] = m
        return out
    if style == 3:
        # the first item is there from the start, its later codings and the other items come one by one
        first = next(iter(data))
        out = segeval.Dataset({first: dict(list(data[first].items())[:1])}, boundary_format=form)
        for item, cs in data.items():
            for c, m in cs.items():
                out[item][c] = m
            if not cs:
                out[item]
        return out
    if style == 6:
        items = list(data.items())
        half = len(items) // 2
        return segeval.Dataset(dict(items[:half]), boundary_format=form) + segeval.Dataset(dict(items[half:]), boundary_format=form)
    out = segeval.Dataset(data, boundary_format=form, **kwargs)
    return out.copy() if style == 7 else out


def dataset(cases, format_name='mass', vary=True, **kwargs):
    """Dataset from [[item, [[coder, masses]]]]."""
    data = {item: {c: encode(m, format_name) for c, m in codings} for item, codings in cases}
    return built(data, fmt(format_name), kwargs, vary)


def sets_dataset(cases, vary=True):
    """Dataset from [[item, [[coder, boundary string]]]]."""
    data = {item: {c: string(m) for c, m in codings} for item, codings in cases}
    return built(data, fmt('sets'), {}, vary)


def edits(result, what='boundary_edit_distance'):
    """(additions [(type, side)], substitutions [(x, y)], transpositions [(i, j, t)])."""
    require(isinstance(result, (tuple, list)) and len(result) == 3,
            '{0} returned {1}', what, short(result))
    adds = [tuple(x) for x in result[0]]
    subs = [tuple(x) for x in result[1]]
    trs = [tuple(x) for x in result[2]]
    require(all(len(x) == 2 for x in adds) and all(len(x) == 2 for x in subs) and all(len(x) == 3 for x in trs),
            '{0} returned malformed edits {1}', what, short(result))
    trs = [(i, j, t) if i <= j else (j, i, t) for i, j, t in trs]
    return adds, subs, trs
