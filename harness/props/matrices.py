"""P10 precision/recall/F-measure; P11 confusion matrices as tables (stateful)."""
from __future__ import division
from decimal import Decimal
from fractions import Fraction
import segeval
from harness import gen, model
from harness.core import Sub, require, fail, short, agree, num, near, raises

# label codes: JSON-safe stand-ins for hashable labels
LABELS = [['str', 'p'], ['str', 'n'], ['int', 1], ['int', 2], ['none'], ['str', ''], ['int', 0], ['int', 10 ** 12],
          ['int', -5], ['tuple', 1, 'x'], ['fs', 1, 2], ['str', 'long label with spaces'], ['int', 257], ['str', '1'],
          ['tuple'], ['str', u'\u00e9']]


def label(code):
    """A fresh object for a label code."""
    kind = code[0]
    if kind == 'none':
        return None
    if kind == 'str':
        return ''.join(list(code[1]))
    if kind == 'int':
        return int(str(code[1]))
    if kind == 'tuple':
        return tuple(code[1:])
    return frozenset(code[1:])


def gen_labels(s, lo, hi):
    k = s.int(lo, hi)
    kind = s.weighted([(3, 'plain'), (3, 'any'), (1, 'ints'), (1, 'many')])
    if kind == 'plain':
        return [['str', c] for c in 'pnxyzw'[:k]]
    if kind == 'ints':
        base = s.choice((0, 1, 250, 10 ** 9))
        return [['int', base + i] for i in range(k)]
    if kind == 'many':
        return [['str', 'c%d' % i] for i in range(gen.notable(s, s.int(k, 14), 40, 4))]
    return s.shuffled(LABELS)[:k]


def gen_count(s):
    kind = s.weighted([(4, 'zero'), (6, 'small'), (2, 'decimal'), (1, 'huge'), (1, 'mined')])
    if kind == 'zero':
        return s.choice((0, 0, 0, '0', '0.0'))
    if kind == 'small':
        return s.int(1, 12)
    if kind == 'decimal':
        return str(Decimal(s.int(1, 4000)) / s.choice((2, 3, 4, 5, 8, 10, 100)))
    if kind == 'huge':
        return s.choice((10 ** 6, 10 ** 9, 999999937))
    return gen.mined_int(s, 0, 10 ** 6)


def count(code):
    return Decimal(code) if isinstance(code, str) else code


def gen_matrix(s):
    classes = gen_labels(s, 1, 6)
    style = s.weighted([(4, 'dense'), (3, 'sparse'), (1, 'diagonal'), (1, 'off'), (1, 'empty row')])
    out = []
    skip = s.draw(len(classes))
    for i in range(len(classes)):
        for j in range(len(classes)):
            if style == 'sparse' and s.bool(2, 3) or style == 'diagonal' and i != j or style == 'off' and i == j \
                    or style == 'empty row' and (i == skip or s.bool(1, 4)):
                continue
            out.append([i, j, gen_count(s)])
    return {'classes': classes, 'cells': s.shuffled(out) if s.bool() else out}


def gen_beta(s):
    kind = s.weighted([(2, 'default'), (4, 'int'), (4, 'float'), (4, 'decimal')])
    if kind == 'default':
        return [kind]
    if kind == 'int':
        return [kind, s.choice((1, 2, 0, 3, 4, 10, 100)) if s.bool(3, 4) else gen.mined_int(s, 0, 1000)]
    if kind == 'float':
        return [kind, s.choice((0.5, 1.0, 2.0, 0.0, 0.1, 2.5, 1.5, 0.25, 1e-3, 1e3, 1.0 / 3))]
    return [kind, s.choice(('1', '2', '0', '0.25', '1.5', '0.001', '1.0', '0.5', '7.75', '1E+2', '0.0')) if s.bool(2, 3)
            else '%d.%d' % (s.draw(5), s.draw(1000))]


def gen_ml(s):
    case = {'matrices': [gen_matrix(s)] + s.many(gen_matrix, 0, 3, 1, 4),
            'beta': gen_beta(s),
            'dict': s.bool(1, 3), 'which': s.int(0, 5)}
    return case


def build(m):
    matrix = segeval.ConfusionMatrix()
    labels = [label(c) for c in m['classes']]
    table, seen = {}, []
    for i, j, c in m['cells']:
        if count(c) == 0 and (i + j) % 2:
            matrix[label(m['classes'][i])][label(m['classes'][j])]     # read only
        elif isinstance(c, int) and c % 2 and c < 20:
            for _ in range(c):
                matrix[label(m['classes'][i])][label(m['classes'][j])] += 1
        else:
            matrix[label(m['classes'][i])][label(m['classes'][j])] = count(c)
        table[labels[i], labels[j]] = Fraction(count(c))
        for x in (labels[i], labels[j]):
            if x not in seen:
                seen.append(x)
    return matrix, model.Matrix(table, seen)


def check_ml(case):
    built = [build(m) for m in case['matrices']]
    kind = case['beta'][0]
    if kind == 'default':
        kw, beta = {}, Fraction(1)
    else:
        v = case['beta'][1]
        v = Decimal(v) if kind == 'decimal' else v
        kw, beta = {'beta': v}, Fraction(Decimal(str(v)))
    fns = [('p', segeval.precision, {}), ('r', segeval.recall, {}), ('f', segeval.fmeasure, kw)]
    micro, macro = segeval.Average.micro, segeval.Average.macro
    if case['dict']:
        arg = {'m%d' % i: m for i, (m, _) in enumerate(built)}
        refs = {'m%d' % i: r for i, (_, r) in enumerate(built)}
    else:
        arg, refs = {'m0': built[0][0]}, {'m0': built[0][1]}

    def values(fn, **k):
        got = fn(arg if case['dict'] else arg['m0'], **k)
        if not case['dict']:
            return {'m0': got}
        require(isinstance(got, dict) and set(got) == set(refs), 'dict of matrices gave {0}', short(got))
        return got
    nontrivial = False
    for which, fn, k in fns:
        for version, name in ((None, 'micro'), (micro, 'micro'), (macro, 'macro')):
            vk = dict(k) if version is None else dict(k, version=version)
            got = values(fn, **vk)
            for key, r in refs.items():
                want = r.micro(which, beta) if name == 'micro' else r.macro(which, beta)
                v = near(got[key], want, '{0}-average of {1}'.format(name, fn.__name__))
                require(0 <= v <= 1 + Fraction(1, 10 ** 20), '{0}-average of {1} is {2}', name, fn.__name__, v)
                nontrivial = nontrivial or 0 < want < 1
        classes = set.intersection(*[set(r.classes) for r in refs.values()]) - {None}
        for c in classes:
            for extra in ({}, {'version': macro}):
                got = values(fn, classification=c, **dict(k, **extra))
                for key, r in refs.items():
                    want = r.precision(c) if which == 'p' else r.recall(c) if which == 'r' else r.fmeasure(c, beta)
                    v = near(got[key], want, '{0} of class {1!r}'.format(fn.__name__, c))
                    require(0 <= v <= 1 + Fraction(1, 10 ** 20), '{0} of class {1!r} is {2}', fn.__name__, c, v)
                    require(r.diag(c) != 0 or v == 0, '{0} of a class without correct counts is {1}', fn.__name__, v)
    sizes = len(case['matrices'][0]['classes'])
    return nontrivial, ('classes%d' % min(sizes, 6), 'dict' if case['dict'] else 'single', 'beta ' + str(case['beta'][0]),
                        'none class' if any(c == ['none'] for m in case['matrices'] for c in m['classes']) else '')


def enum_ml(tier):
    """All 2x2 matrices with counts 0..3 (quick: 0..2)."""
    top = 3 if tier == 'quick' else 5
    for w in range(top):
        for x in range(top):
            for y in range(top):
                for z in range(top):
                    for beta in (['default'], ['int', 2], ['float', 0.5], ['int', 0]):
                        yield {'matrices': [{'classes': [['str', 'p'], ['str', 'n']],
                                             'cells': [[0, 0, w], [0, 1, x], [1, 0, y], [1, 1, z]]}],
                               'beta': beta, 'dict': False, 'which': 0}


# -- P11 --------------------------------------------------------------------
OPS = [(8, 'set'), (8, 'inc'), (5, 'get'), (5, 'classes'), (2, 'metric'), (2, 'row'), (1, 'new'), (2, 'mutate classes'),
       (1, 'alias'), (1, 'zero'), (2, 'touch')]


def gen_history(s):
    labels_ = gen_labels(s, 1, 5)
    many = s.bool(1, 40) or gen.notable(s, False, 200, 6)
    if many:
        labels_ = [['str', 'c%d' % i] for i in range(gen.notable(s, s.int(6, 40), 200, 2))]

    def op(q):
        kind = q.weighted(OPS)
        o = [kind, q.draw(3), q.draw(len(labels_)), q.draw(len(labels_))]
        if kind == 'set':
            o.append(gen_count(q))
        elif kind == 'inc':
            o.append(q.choice((1, 1, 2, '0.5', 10)))
        elif kind == 'metric':
            o.append(q.choice(('p', 'r', 'f', 'pm', 'rm', 'fm', 'pc', 'rc', 'fc')))
        return o
    ops = s.many(op, 1, 30, 14, 15)
    if many:
        ops.insert(s.draw(len(ops)), ['fill', s.draw(3), s.draw(len(labels_)), 1 + s.draw(len(labels_)), s.bool()])
    return {'labels': labels_, 'ops': ops}


def check_history(case):
    codes = case['labels']
    fresh = lambda i: label(codes[i % len(codes)])
    real = [segeval.ConfusionMatrix()]
    tables = [({}, set())]          # cells, classes
    touched = [set()]               # per matrix, the rows fetched without naming a cell
    used = set()

    def verify(where):
        for k, (m, (table, classes)) in enumerate(zip(real, tables)):
            got = m.classes()
            # whether a row without any cell is a class is free
            require(classes <= set(got) <= classes | touched[k] and len(got) == len(set(got)), 'matrix {0} {1}: classes {2}, expected {3}',
                    k, where, short(got), short(classes))

    for step, op in enumerate(case['ops']):
        kind = op[0]
        used.add(kind)
        if kind == 'new':
            real.append(segeval.ConfusionMatrix())
            tables.append(({}, set()))
            touched.append(set())
            verify('after creating another')
            continue
        k = op[1] % len(real)
        m, (table, classes) = real[k], tables[k]
        p, q = fresh(op[2]), fresh(op[3])
        if kind == 'set':
            m[p][q] = count(op[4])
            table[p, q] = count(op[4])
            classes.update((p, q))
        elif kind == 'inc':
            amount = count(op[4])
            m[p][q] += amount
            table[p, q] = table.get((p, q), 0) + amount     # in the same arithmetic
            classes.update((p, q))
        elif kind == 'zero':
            m[p][q] = 0
            table[p, q] = 0
            classes.update((p, q))
        elif kind == 'get':
            got = num(m[p][q], 'cell')
            require(got == Fraction(table.get((p, q), 0)), 'step {0}: cell [{1!r}][{2!r}] is {3}, expected {4}', step, p, q, got,
                    table.get((p, q), 0))
            classes.update((p, q))
        elif kind == 'alias':
            row = m[p]              # a row kept and used later is the same row
            row[q] = 7
            table[p, q] = 7
            classes.update((p, q))
        elif kind == 'fill':            # many classes at once: on the diagonal, or of one row
            for code in codes[:op[3]]:
                x, y = label(code), label(code) if op[4] else p
                m[y][x] = 3
                table[y, x] = 3
                classes.update((x, y))
        elif kind == 'touch':
            m[p]
            touched[k].add(p)
        elif kind == 'classes':
            verify('at step %d' % step)
        elif kind == 'mutate classes':
            got = m.classes()
            try:
                got.add('not a class')
            except AttributeError:
                pass
        elif kind == 'row':
            for value in ({q: 1}, 3, None):
                try:
                    m[p] = value
                except AttributeError:
                    pass
                else:
                    fail('step {0}: assigning a whole row is not rejected', step)
            verify('after a rejected row assignment at step %d' % step)
        elif kind == 'metric':
            if not classes:
                continue
            fn = {'p': segeval.precision, 'r': segeval.recall, 'f': segeval.fmeasure}[op[4][0]]
            kw = {'version': segeval.Average.macro} if op[4].endswith('m') else {}
            if op[4].endswith('c'):
                options = sorted((c for c in classes if c is not None), key=repr)
                if not options:
                    continue
                kw['classification'] = options[op[2] % len(options)]
            if all(v >= 0 for v in table.values()):
                fn(m, **kw)
                if len(real) > 1:
                    fn({'x': m}, **kw)
            verify('after ' + fn.__name__)
    verify('at the end')
    for k, (m, (table, classes)) in enumerate(zip(real, tables)):
        for p in classes:
            for q in classes:
                got = num(m[p][q], 'cell')
                require(got == Fraction(table.get((p, q), 0)), 'end: matrix {0} cell [{1!r}][{2!r}] is {3}, expected {4}', k, p, q,
                        got, table.get((p, q), 0))
        require(classes <= set(m.classes()) <= classes | touched[k], 'matrix {0}: classes {1}, expected {2}', k, short(m.classes()), short(classes))
    fresh_matrix = segeval.ConfusionMatrix()
    require(len(fresh_matrix.classes()) == 0, 'a new matrix has classes {0}', short(fresh_matrix.classes()))
    return len(case['ops']) > 2 and bool({'set', 'inc'} & used), used


SUBS = {
    'P10': [Sub('matrices', gen_ml, check_ml, 12000, enum=enum_ml)],
    'P11': [Sub('histories', gen_history, check_history, 24000)],
}
