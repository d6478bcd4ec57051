"""P20: histories of dataset operations against a model."""
from __future__ import division
import copy
import pickle
import segeval
from segeval.data import DataIOError
from harness import gen, sut
from harness.core import Sub, require, fail, short

ITEMS = ['a', 'b', 'c']
CODERS = ['x', 'y', 'z', 'w']


def coding(s):
    return gen.masses(s, 1, 8) if s.bool(15, 16) else []


def gen_codings(s, items, coders, maximum=3):
    """[[item, [[coder, masses]]]], possibly empty, possibly with an item without codings."""
    out = []
    for item in s.subset(items, 1, 2)[:maximum]:
        group = s.subset(coders, 1, 2)
        out.append([item, [[c, coding(s)] for c in group]])
    return out


def gen_properties(s):
    out = {}
    for k in s.subset(['p', 'q'], 1, 2):
        out[k] = s.choice((1, 'v', [1, 2], {'n': [3]}))
    return out


def gen_history(s):
    items = s.choice((ITEMS, ITEMS[:2], ITEMS[:1], gen.names(s, 3)))
    coders = s.choice((CODERS, CODERS[:2], gen.coder_names(s, 4)))
    disjoint = s.bool(1, 2)     # codings mostly of different coders, so that additions succeed
    ops = []
    many = s.bool(1, 60) or gen.notable(s, False, 300, 12)
    for k in range(s.int(2, 5) + s.draw(s.choice((4, 10, 24)))):
        kind = 'new' if k < 2 else s.weighted([
            (3, 'new'), (4, 'add'), (4, 'iadd'), (3, 'copy'), (4, 'assign'), (2, 'assign item'), (2, 'property'),
            (1, 'boundary type'), (1, 'format'), (2, 'self'), (2, 'plain'), (1, 'change list'), (1, 'delete')])
        op = [kind, s.draw(8), s.draw(8)]
        if kind in ('new', 'plain'):
            pool = [coders[(k + j) % len(coders)] for j in range(2)] if disjoint else coders
            op.append(gen_codings(s, items, pool))
            if many and s.bool():
                op[-1] += [['item %d' % i, [[pool[i % len(pool)], [1 + i % 3]]]] for i in range(gen.notable(s, s.int(20, 130), 300, 2))]
            op.append(gen_properties(s))
            op.append(sorted(s.subset([1, 2, 3], 1, 2)) if s.bool() else None)
            op.append(s.choice(('mass', 'mass', 'position', 'nltk', 'sets')))
            op.append(s.draw(4))
            op.append(s.bool(1, 3))
        elif kind in ('assign', 'assign item'):
            op.append(s.choice(items))
            op.append([[c, coding(s)] for c in (s.subset(coders, 1, 3) or coders[:1])])
        elif kind == 'property':
            op.append(s.choice(['p', 'q', 'r']))
            op.append(s.choice((7, 'new', [9])))
            op.append(s.draw(3))
        elif kind == 'boundary type':
            op.append(s.int(1, 9))
        elif kind == 'format':
            op.append(s.choice(sut.FORMATS))
        ops.append(op)
    return {'ops': ops}


class Slot(object):
    """A dataset and what it should contain."""

    def __init__(self, real, items, required, properties, types, form):
        self.real = real
        self.items = items              # item -> coder -> list of masses
        self.required = required        # coders put in by construction or merging (not: by assignment)
        self.properties = properties
        self.types = types
        self.form = form
        self.shared = set()             # (item, coder) whose value another dataset may hold

    def verify(self, what):
        d = self.real
        require(isinstance(d, segeval.Dataset), '{0}: not a Dataset: {1}', what, short(d))
        seen = {i: {c: list(m) for c, m in cs.items()} for i, cs in d.items()}
        require(seen == self.items, '{0}: codings are {1} instead of {2}', what, short(seen), short(self.items))
        actual = {c for cs in self.items.values() for c in cs}
        known = set(d.coders)
        need = self.required & actual
        require(need <= known, '{0}: coders {1} lack {2}', what, short(known), short(need - known))
        require(known <= actual | self.required, '{0}: coders {1} coded nothing', what, short(known - actual))
        require(d.properties == self.properties, '{0}: properties are {1} instead of {2}', what, short(d.properties),
                short(self.properties))
        require(set(d.boundary_types) == self.types, '{0}: boundary types are {1} instead of {2}', what,
                short(d.boundary_types), short(self.types))
        require(d.boundary_format == self.form, '{0}: boundary format is {1} instead of {2}', what,
                short(d.boundary_format), short(self.form))


def clone(items):
    return {i: {c: list(m) for c, m in cs.items()} for i, cs in items.items()}


def create(op):
    cases, properties, types, form, how, listy = op[3:9]
    wrap = list if listy else tuple
    raw = {i: {c: wrap(m) for c, m in cs} for i, cs in cases}
    model = {i: {c: list(m) for c, m in cs} for i, cs in cases}
    coders = {c for cs in model.values() for c in cs}
    kw = {}
    if how & 1 or properties:
        kw['properties'] = copy.deepcopy(properties)
    if types is not None:
        kw['boundary_types'] = set(types) if how & 2 else list(types)
    if form != 'mass':
        kw['boundary_format'] = sut.fmt(form)
    real = segeval.Dataset(raw, **kw) if raw or how & 1 else segeval.Dataset(**kw)
    # what the caller does later with its own properties and types is its own business
    if 'properties' in kw:
        kw['properties']['later'] = 1
        kw['properties'].pop('p', None)
    if isinstance(kw.get('boundary_types'), set):
        kw['boundary_types'].add(99)
    return Slot(real, model, coders, copy.deepcopy(properties), set(types) if types is not None else {1}, sut.fmt(form))


def overlap(left, right):
    return [(i, c) for i, cs in right.items() for c in cs if c in left.get(i, {})]


def merged(left, right):
    out = clone(left)
    for i, cs in right.items():
        out.setdefault(i, {}).update({c: list(m) for c, m in cs.items()})
    return out


def check_history(case):
    slots, labels = [], set()
    failures = merges = 0
    for k, op in enumerate(case['ops']):
        kind = op[0]
        what = 'operation {0} ({1})'.format(k + 1, kind)
        labels.add(kind)
        if kind == 'new' or not slots:
            if len(op) > 8:
                slots.append(create(op))
        elif kind == 'plain':
            # extend by a plain mapping
            left = slots[op[1] % len(slots)]
            raw = {i: {c: tuple(m) for c, m in cs} for i, cs in op[3]}
            model = {i: {c: list(m) for c, m in cs} for i, cs in op[3]}
            failures += extend(left, raw, model, set(), what, labels)
            require({i: {c: list(m) for c, m in cs.items()} for i, cs in raw.items()} == model,
                    '{0}: the added mapping was changed to {1}', what, short(raw))
            merges += 1
        elif kind in ('add', 'iadd', 'self'):
            i = op[1] % len(slots)
            j = i if kind == 'self' else op[2] % len(slots)
            left, right = slots[i], slots[j]
            merges += 1
            if kind == 'iadd' or (kind == 'self' and op[2] % 2):
                failures += extend(left, right.real, right.items if j != i else clone(right.items),
                                   right.required, what, labels, right)
            else:
                clash = overlap(left.items, right.items)
                try:
                    got = left.real + right.real
                except DataIOError:
                    require(clash, '{0}: adding raised DataIOError without a duplicate', what)
                    labels.add('duplicate')
                    failures += 1
                else:
                    require(not clash, '{0}: item and coder {1} of both operands were added', what, short(clash))
                    require(got is not left.real and got is not right.real, '{0}: + returned an operand', what)
                    new = Slot(got, merged(left.items, right.items), left.required | coders_of(right.items),
                               copy.deepcopy(left.properties), set(left.types), left.form)
                    new.shared = {(it, c) for it, cs in right.items.items() for c in cs}
                    right.shared |= new.shared
                    slots.append(new)
        elif kind == 'copy':
            left = slots[op[1] % len(slots)]
            how, made = COPIES[op[2] % len(COPIES)]
            try:
                got = made(left.real)
            except Exception as e:
                fail('{0}: {1} raised {2!r}', what, how, e)
            labels.add(how)
            require(got is not left.real, '{0}: {1} returned the dataset itself', what, how)
            slot = Slot(got, clone(left.items), set(left.required), copy.deepcopy(left.properties), set(left.types), left.form)
            if how != 'copy.copy':
                slots.append(slot)
            else:       # a shallow copy shares what it contains
                slot.verify('{0}: the dataset made by {1}'.format(what, how))
        elif kind == 'assign':
            left = slots[op[1] % len(slots)]
            for c, m in op[4]:
                left.real[op[3]][c] = list(m) if op[2] % 2 else tuple(m)
                left.items.setdefault(op[3], {})[c] = list(m)
                left.shared.discard((op[3], c))
                # a coder replaced or added by assignment need not be announced
        elif kind == 'assign item':
            left = slots[op[1] % len(slots)]
            left.real[op[3]] = {c: tuple(m) for c, m in op[4]}
            left.items[op[3]] = {c: list(m) for c, m in op[4]}
            left.shared = {(i, c) for i, c in left.shared if i != op[3]}
        elif kind == 'delete':
            left = slots[op[1] % len(slots)]
            for i in list(left.items)[op[2] % 4:][:1]:
                del left.real[i]
                del left.items[i]
        elif kind == 'property':
            left = slots[op[1] % len(slots)]
            old = left.properties.get(op[3])
            if op[5] == 1 and isinstance(old, list):
                left.real.properties[op[3]].append(op[1])
                old.append(op[1])
            elif op[5] == 1 and isinstance(old, dict):
                left.real.properties[op[3]]['n'].append(op[1])
                old['n'].append(op[1])
            elif op[5] == 2 and op[3] in left.properties:
                del left.real.properties[op[3]]
                del left.properties[op[3]]
            else:
                left.real.properties[op[3]] = copy.deepcopy(op[4])
                left.properties[op[3]] = copy.deepcopy(op[4])
        elif kind == 'boundary type':
            left = slots[op[1] % len(slots)]
            left.real.boundary_types.add(op[3])
            left.types.add(op[3])
        elif kind == 'format':
            left = slots[op[1] % len(slots)]
            left.real.boundary_format = left.form = sut.fmt(op[3])
        elif kind == 'change list':
            left = slots[op[1] % len(slots)]
            for i, cs in left.items.items():
                for c in cs:
                    value = left.real[i][c]
                    if isinstance(value, list) and (i, c) not in left.shared:
                        value.append(1)
                        cs[c].append(1)
                        labels.add('list changed')
                        break
        for n, slot in enumerate(slots):
            slot.verify('{0}: dataset {1}'.format(what, n + 1))
    return merges > 0 and any(len(s.items) > 0 for s in slots), sorted(labels) + [
        'datasets%d' % min(6, len(slots)), 'refused' if failures else '', 'merged' if merges > failures else '']


COPIES = [('copy', lambda d: d.copy())] * 4 + [
    ('copy.deepcopy', copy.deepcopy), ('pickle', lambda d: pickle.loads(pickle.dumps(d, 2))),
    ('newest pickle', lambda d: pickle.loads(pickle.dumps(d, pickle.HIGHEST_PROTOCOL))), ('copy.copy', copy.copy)]


def coders_of(items):
    return {c for cs in items.values() for c in cs}


def extend(left, real, model, required, what, labels, right=None):
    """left += real; whether it was refused."""
    clash = overlap(left.items, model)
    before = clone(left.items)
    target = left.real
    try:
        target += real
    except DataIOError:
        require(clash, '{0}: adding raised DataIOError without a duplicate', what)
        labels.add('duplicate')
        # what was there is still there; the rest may have been added in part
        full = merged(model, before)
        seen = {i: {c: list(m) for c, m in cs.items()} for i, cs in left.real.items()}
        for i, cs in before.items():
            require(all(seen.get(i, {}).get(c) == m for c, m in cs.items()),
                    '{0}: a refused addition changed codings of {1!r} from {2} to {3}', what, i, short(cs), short(seen.get(i)))
        for i, cs in seen.items():
            for c, m in cs.items():
                require(full.get(i, {}).get(c) == m, '{0}: a refused addition made up {1!r}, {2!r}: {3}', what, i, c, short(m))
        left.items.clear()
        left.items.update(clone(seen))
        left.required = {c for c in left.required | set(left.real.coders)} & (left.required | coders_of(model))
        if right is not None:
            shared = {(i, c) for i, cs in model.items() for c in cs}
            left.shared |= shared
            right.shared |= shared
        return 1
    require(not clash, '{0}: item and coder {1} of both operands were added', what, short(clash))
    require(target is left.real, '{0}: += returned another object', what)
    new = merged(before, model)
    left.items.clear()
    left.items.update(new)
    left.required = left.required | coders_of(model)
    shared = {(i, c) for i, cs in model.items() for c in cs}
    left.shared |= shared
    if right is not None:
        right.shared |= shared
    return 0


SUBS = {'P20': [Sub('histories', gen_history, check_history, 16000)]}
