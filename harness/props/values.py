"""P29: results depend on argument values only, not on identity, container or interpreter."""
from __future__ import division
import math
import os
import subprocess
import sys
import traceback
from decimal import Decimal
import segeval
from harness import gen, sut, importer
from harness.core import Sub, Violation, REPO, require, fail, short, same, canon, num

PAIR = ('boundary_similarity', 'segmentation_similarity', 'boundary_statistics', 'boundary_confusion_matrix', 'pk', 'window_diff')
WINDOW = ('pk', 'window_diff')
AGREEMENT = ('actual_agreement_linear', 'fleiss_pi_linear', 'fleiss_kappa_linear', 'artstein_poesio_bias_linear')
CPYTHON = os.environ.get('VERIF_CPYTHON', 'python3')


# -- objects equal in value but made in different ways ------------------------------
def fresh(v, style):
    """An equal object; distinct from others wherever the interpreter keeps it apart."""
    if isinstance(v, bool) or v is None:
        return v
    if isinstance(v, int):
        return int(str(v)) if style else v
    if isinstance(v, str):
        return ''.join(list(v)) if style and v else v
    return v


def sequence(values, style):
    """style: 0 tuple, 1 list, 2 tuple of fresh objects, 3 list of fresh objects."""
    values = [fresh(v, style >= 2) for v in values]
    return list(values) if style % 2 else tuple(values)


def make_segmentation(spec, style):
    kind, v = spec
    if kind == 'nltk':
        return fresh(v, style >= 2)
    if kind == 'sets':
        inner = (frozenset, set, frozenset, set)[style]
        positions = [inner(fresh(t, style >= 2) for t in (reversed(p) if style >= 2 else p)) for p in v]
        return positions if style % 2 else tuple(positions)
    return sequence(v, style)


def make_dataset(spec, style):
    kind, cases = spec
    data = {}
    for item, codings in cases:
        inner = data.setdefault(fresh(item, style >= 2), {})
        for c, v in codings:
            inner[fresh(c, style >= 2)] = make_segmentation([kind, v], style)
    return segeval.Dataset(data, boundary_format=fresh(sut.fmt('mass' if kind == 'mass' else kind), style >= 2))


FUNCTIONS = {'ceil': math.ceil, 'floor': math.floor, 'round': round}


def options(case, style):
    kw = {}
    for k, v in case['options'].items():
        if k == 'weight':
            kw[k] = sut.weights(v)
        elif k == 'fnc_round':
            kw[k] = FUNCTIONS[v]
        elif k == 'fnc_compare':
            kw[k] = getattr(segeval, v)
        else:
            kw[k] = fresh(v, style >= 2)
    return kw


def call(case, style=0):
    """The reduced result of a case's call, its arguments made in a style."""
    fn = getattr(segeval, case['fn'])
    kw = options(case, style)
    if case['kind'] == 'pair':
        x, y = case['args']
        kw['boundary_format'] = fresh(sut.fmt(x[0]), style >= 2)
        return reduced(case['fn'], fn(make_segmentation(x, style), make_segmentation(y, (style + case['twist']) % 4), **kw), case)
    if case['kind'] == 'dataset':
        d = make_dataset(case['args'][0], style)
        if len(case['args']) > 1:
            return reduced(case['fn'], fn(d, make_dataset(case['args'][1], style), **kw), case)
        return reduced(case['fn'], fn(d, **kw), case)
    if case['kind'] == 'agreement':
        return reduced(case['fn'], fn(make_dataset(case['args'][0], style), **kw), case)
    if case['kind'] == 'edit':
        x, y = (make_segmentation(['sets', a], style) for a in case['args'])
        return reduced('boundary_edit_distance', fn(x, y, **kw), case)
    if case['kind'] == 'conversion':
        v = case['args'][0]
        return canon(fn(make_segmentation(v, style), **kw))
    if case['kind'] == 'weights':
        edits = [tuple(fresh(v, style >= 2) for v in e) for e in case['args'][0]]
        return canon(fn(edits, *[fresh(v, style >= 2) for v in case['args'][1:]]))
    if case['kind'] == 'summary':
        vs = {fresh(k, style >= 2): Decimal(v) if isinstance(v, str) else fresh(v, style >= 2) for k, v in case['args'][0]}
        return canon(fn(vs))
    if case['kind'] == 'ml':
        m = segeval.ConfusionMatrix()
        for p, a, v in case['args'][0]:
            m[fresh(p, style >= 2)][fresh(a, style >= 2)] += fresh(v, style >= 2)
        if style:
            # the same cells in another order
            m = segeval.ConfusionMatrix()
            for p, a, v in reversed(case['args'][0]):
                m[fresh(p, style >= 2)][fresh(a, style >= 2)] += v
        return canon((fn(m, **kw), num(len(m.classes()))))
    raise KeyError(case['kind'])


def reduced(name, result, case):
    """Comparable form of a result.  Which of several equally good substitutions
    is made is free, but must not vary with how equal sets were built."""
    if name == 'boundary_statistics' and 'count_edits' in result:
        edits = [result[k] for k in ('additions', 'substitutions', 'transpositions')]
        return canon([{k: v for k, v in result.items() if k not in ('additions', 'substitutions', 'transpositions')}] + edits)
    if name == 'boundary_confusion_matrix' and isinstance(result, segeval.ConfusionMatrix):
        return canon({repr((p, a)): v for p, row in result.items() for a, v in row.items() if v})
    if isinstance(result, dict):
        return ('dict', {k: reduced(name, v, case) for k, v in result.items()})
    return canon(result)


def outcome(case):
    """Result, or the type of exception, under this interpreter."""
    try:
        return ('value', call(case, case['style']))
    except Exception as e:
        return ('raised', type(e).__name__, traceback.format_exc()[-800:])


# -- cases ------------------------------------------------------------------------
def pair_options(s, fn):
    kw = {}
    if fn in WINDOW:
        if s.bool(1, 3):
            kw['window_size'] = s.weighted([(4, s.int(1, 9)), (1, s.int(255, 320))])
        if fn == 'window_diff' and s.bool(1, 4):
            kw['lamprier_et_al_2007_fix'] = True
        if s.bool(1, 6):
            kw['fnc_round'] = s.choice(('ceil', 'floor', 'round'))
    else:
        if s.bool():
            kw['n_t'] = gen.n_t(s)
        if s.bool(1, 4):
            kw['weight'] = gen.weight(s)
    if fn not in ('boundary_statistics', 'boundary_confusion_matrix'):
        flag = s.weighted([(4, None), (2, 'one_minus'), (2, 'return_parts')])
        if flag:
            kw[flag] = True
    return kw


def written(masses, f, labels):
    if f == 'mass':
        return masses
    if f == 'position':
        return gen.positions_of(masses, labels)
    return gen.nltk_of(masses) if f == 'nltk' else gen.sets_of(masses)


def gen_case(s):
    kind = s.weighted([(6, 'pair'), (4, 'dataset'), (4, 'agreement'), (2, 'edit'), (2, 'conversion'), (1, 'weights'), (1, 'summary'), (2, 'ml')])
    case = {'kind': kind, 'options': {}, 'style': s.choice((3, 2, 1)), 'twist': s.draw(4), 'seed': s.draw(2)}
    if kind == 'pair':
        fn = case['fn'] = s.choice(PAIR)
        if fn not in WINDOW and s.bool(2, 5):
            a, b = gen.string_pair(s, 1, 30, 5)
            case['args'] = [['sets', a], ['sets', b]]
            case['types'] = True
        else:
            f = s.choice(sut.FORMATS[:3] if fn in WINDOW else sut.FORMATS)
            lo = 1 if f in ('mass', 'position') else 2
            if fn in WINDOW and s.bool(1, 8):
                # counts and windows above the range of small integers
                n = s.int(560, 700)
                m = [1] * n if s.bool() else gen.masses_of(n, [p for p in range(n - 1) if s.bool(7, 8)])
                k = gen.masses_of(n, [p for p in range(n - 1) if s.bool(7, 8)])
                m, k = (m, k) if s.bool() else (k, m)
                case['options']['window_size'] = s.int(257, 330)
            else:
                m, k = gen.mass_pair(s, lo, 400 if fn in WINDOW else 150)
            case['args'] = [[f, written(m, f, gen.labels(s, len(m)))], [f, written(k, f, gen.labels(s, len(k)))]]
        case['options'] = dict(pair_options(s, fn), **case['options'])
    elif kind in ('dataset', 'agreement'):
        fn = case['fn'] = s.choice(PAIR if kind == 'dataset' else AGREEMENT)
        types = fn not in WINDOW and s.bool(1, 3)
        data = gen.full_dataset(s, 2, 16, 2, 4, 3)
        if types:
            case['types'] = True
            data = [[i, [[c, [sorted({s.int(1, 4) for _ in range(s.weighted([(3, 0), (3, 1), (1, 2)]))}) for _ in range(sum(m) - 1)]]
                         for c, m in cs]] for i, cs in data]
            f = 'sets'
        else:
            f = s.choice(sut.FORMATS[:3] if fn in WINDOW else sut.FORMATS)
            data = [[i, [[c, written(m, f, gen.labels(s, len(m)))] for c, m in cs]] for i, cs in data]
        case['args'] = [[f, data]]
        if kind == 'dataset':
            case['options'] = pair_options(s, fn)
            if s.bool(1, 3):
                # against a dataset of other coders of the same texts
                case['args'].append([f, [[i, [['r' + str(c), v] for c, v in cs[::-1]]] for i, cs in data[::-1]]])
            elif s.bool(1, 3):
                case['options']['permuted'] = s.bool()
        else:
            if s.bool():
                case['options']['n_t'] = s.int(1, 6)
            if s.bool(1, 3):
                case['options']['fnc_compare'] = s.choice(('boundary_similarity', 'segmentation_similarity'))
            if s.bool(1, 3):
                case['options']['weight'] = gen.weight(s)
            if fn != 'actual_agreement_linear' and s.bool(1, 3):
                case['options']['return_parts'] = True
    elif kind == 'edit':
        case['fn'] = 'boundary_edit_distance'
        case['args'] = list(gen.string_pair(s, 0, 40, 5))
        case['types'] = True
        if s.bool():
            case['options']['n_t'] = gen.n_t(s)
    elif kind == 'conversion':
        fn = case['fn'] = s.choice(('boundary_string_from_masses', 'convert_masses_to_positions', 'convert_positions_to_masses',
                                    'convert_nltk_to_masses', 'compute_window_size'))
        m = gen.masses(s, 1, 400)
        f = {'convert_positions_to_masses': 'position', 'convert_nltk_to_masses': 'nltk'}.get(fn, 'mass')
        if fn == 'compute_window_size' and s.bool():
            f = 'position'
            case['options']['boundary_format'] = 'position'
        case['args'] = [[f, written(m, f, gen.labels(s, len(m)))]]
    elif kind == 'weights':
        fn = case['fn'] = s.choice(('weight_a', 'weight_s', 'weight_s_scale', 'weight_t', 'weight_t_scale'))
        base = s.choice((1, 250, 10 ** 6))
        if fn == 'weight_a':
            case['args'] = [[[base + s.draw(3), s.choice('ab')] for _ in range(s.draw(5))]]
        elif fn in ('weight_s', 'weight_s_scale'):
            case['args'] = [[[base + s.draw(9), base + s.draw(9)] for _ in range(s.draw(5))], base + 9, base]
        else:
            case['args'] = [[[i, i + s.int(1, 4), base] for i in range(s.draw(5))], s.choice((2, 5, 300))]
    elif kind == 'summary':
        case['fn'] = 'summarize'
        case['args'] = [[['v%d' % i, s.choice((s.int(-9, 9), 10 ** 6 + i, str(Decimal(s.int(-99, 99)) / 8)))] for i in range(s.int(1, 20))]]
    else:
        case['fn'] = s.choice(('precision', 'recall', 'fmeasure'))
        names = s.choice(([1, 2, 3], [1000, 1001, -7], ['a', 'bb', 'a1'], [None, 1, 'x'], [10 ** 20, 257, 'label one']))
        case['args'] = [[[s.choice(names), s.choice(names), s.choice((0, 1, 3, 300, 10 ** 6))] for _ in range(s.int(1, 8))]]
        if s.bool():
            case['options']['classification'] = s.choice([n for cell in case['args'][0] for n in cell[:2] if n is not None] or [1])
            if case['options']['classification'] not in [n for cell in case['args'][0] for n in cell[:2]]:
                del case['options']['classification']
    return case


def undefined(case):
    """pi and kappa where no disagreement is expected."""
    if case['fn'] not in ('fleiss_pi_linear', 'fleiss_kappa_linear') or case['options'].get('return_parts'):
        return False
    kw = options(case, 0)
    parts = getattr(segeval, case['fn'])(make_dataset(case['args'][0], 0), return_parts=True, **kw)
    return parts[1] == 1


def label(case):
    return [case['fn'], case['kind'], 'style%d' % case['style'], 'types' if case.get('types') else '',
            case['args'][0][0] if case['kind'] in ('pair', 'dataset', 'agreement', 'conversion') else '']


def check_objects(case):
    if undefined(case):
        return False, ('undefined',)
    base = call(case, 0)
    for style in (1, 2, 3):
        other = call(case, style)
        require(same(base, other), '{0}: {1} with tuples, {2} with {3}', case['fn'], short(base), short(other),
                ('', 'lists', 'fresh objects', 'lists of fresh objects')[style])
    return True, label(case)


_servers, _answered = {}, set()


def ask(case):
    seed = case['seed']
    if seed not in _servers:
        env = dict(os.environ, PYTHONHASHSEED=str(seed * 4242 + 1), PYTHONDONTWRITEBYTECODE='1', VERIF_REPO=REPO)
        _servers[seed] = subprocess.Popen([CPYTHON, '-W', 'ignore', os.path.join(os.path.dirname(importer.__file__), 'cpython_server.py')],
                                          stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env)
    p = _servers[seed]
    try:
        importer.send(p.stdin.fileno(), case)
        answer = importer.receive(p.stdout.fileno())
    except (EOFError, BrokenPipeError):
        del _servers[seed]
        if seed in _answered:
            fail('the CPython process died upon {0}', short(case))
        raise RuntimeError('no answer from CPython')
    _answered.add(seed)
    return answer


def check_interpreters(case):
    if undefined(case):
        return False, ('undefined',)
    here = call(case, 0)
    there = ask(case)
    require(there[0] == 'value', '{0}: CPython raised {1}, PyPy returned {2}\n{3}', case['fn'], there[1], short(here), there[-1])
    require(same(here, there[1]), '{0}: PyPy gives {1}, CPython {2}', case['fn'], short(here), short(there[1]))
    return True, label(case) + ['hash seed %d' % (case['seed'] * 4242 + 1)]


SUBS = {'P29': [Sub('objects', gen_case, check_objects, 8000), Sub('interpreters', gen_case, check_interpreters, 8000)]}
