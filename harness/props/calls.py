"""P25 no side effects and no dependence on earlier calls; P27 rejections; P30 ways of calling."""
from __future__ import division
import copy
import io
import json
import math
import os
import shutil
import sys
import tempfile
from decimal import Decimal
from fractions import Fraction
import segeval
from segeval.util import SegmentationMetricError
from harness import gen, sut, model, settings
from harness.core import Sub, Violation, require, fail, short, raises, agree, same, _canon
from harness.pristine import Pristine, Crash

PAIR = ('boundary_similarity', 'segmentation_similarity', 'boundary_statistics', 'boundary_confusion_matrix', 'pk', 'window_diff')
WINDOW = ('pk', 'window_diff')
AGREEMENT = ('actual_agreement_linear', 'fleiss_pi_linear', 'fleiss_kappa_linear', 'artstein_poesio_bias_linear')
SAMPLES = ('HEARST_1997_STARGAZER', 'HYPOTHESIS_STARGAZER', 'COMPLETE_AGREEMENT', 'LARGE_DISAGREEMENT')


# -- objects ------------------------------------------------------------------
def build(spec):
    """An argument object from its description."""
    kind = spec[0]
    if kind == 'masses':
        return (list if spec[2] else tuple)(spec[1])
    if kind == 'positions':
        return (list if spec[2] else tuple)(spec[1])
    if kind == 'text':
        return ''.join(spec[1])        # a fresh object
    if kind == 'string':
        return [set(p) for p in spec[1]] if spec[2] else sut.string(spec[1])
    if kind == 'dataset':
        wrap = list if spec[3] else tuple
        if spec[2] == 'strings':
            data = {i: {c: sut.string(m) for c, m in cs} for i, cs in spec[1]}
            return segeval.Dataset(data, boundary_format=sut.fmt('sets'))
        data = {i: {c: (sut.encode(m, spec[2], listy=spec[3])) for c, m in cs} for i, cs in spec[1]}
        return segeval.Dataset(data, properties={'k': [1]} if spec[3] else None, boundary_format=sut.fmt(spec[2]))
    if kind == 'plain':
        return {i: {c: list(m) for c, m in cs} for i, cs in spec[1]}
    if kind == 'sample':
        return getattr(segeval, spec[1])
    if kind == 'matrix':
        m = segeval.ConfusionMatrix()
        for p, a, v in spec[1]:
            m[p][a] += v
        return m
    if kind == 'matrices':
        return {k: build(['matrix', cells]) for k, cells in spec[1]}
    if kind == 'values':
        return {k: Decimal(v) if isinstance(v, str) else v for k, v in spec[1]}
    if kind == 'edits':
        return [tuple(e) for e in spec[1]]
    if kind == 'path':
        return os.path.join(os.environ['VERIF_CALLS'], spec[1])
    if kind == 'value':
        return spec[1]
    raise KeyError(kind)


def snapshot(x):
    """Everything of an argument that a call must leave alone."""
    if isinstance(x, segeval.Dataset):
        return ('Dataset', {i: {c: snapshot(m) for c, m in cs.items()} for i, cs in x.items()}, repr(sorted(x.coders, key=repr)),
                snapshot(x.properties), repr(sorted(x.boundary_types)), repr(x.boundary_format), repr(x.default_factory))
    if isinstance(x, segeval.ConfusionMatrix):
        cells = {(repr(p), repr(a)): repr(v) for p, row in x.items() for a, v in row.items() if v}
        return ('Matrix', cells, sorted(map(repr, x.classes())))
    if isinstance(x, dict):
        return ('dict', {repr(k): snapshot(v) for k, v in x.items()})
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snapshot(v) for v in x])
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__, sorted(map(repr, x)))
    return repr(x)


def form(x):
    """Comparable, picklable form of a result."""
    if isinstance(x, segeval.Dataset):
        return ('Dataset', _canon({i: {c: tuple(m) for c, m in cs.items()} for i, cs in x.items()}, True),
                sorted(map(repr, x.coders)), _canon(dict(x.properties), True), sorted(map(repr, x.boundary_types)), repr(x.boundary_format))
    return _canon(x, True)


FUNCTIONS = {'ceil': math.ceil, 'floor': math.floor, 'round': round}


def option(k, v):
    if k == 'weight':
        return sut.weights(v)
    if k == 'fnc_round':
        return FUNCTIONS[v]
    if k == 'fnc_compare':
        return getattr(segeval, v)
    if k == 'boundary_format':
        return sut.fmt(v)
    if k == 'beta':
        return Decimal(v)
    if k == 'version':
        return getattr(segeval.Average, v)
    return v


def perform(call, objects):
    """(result object, its form); an exception becomes a form."""
    fn, args, kw = call
    real = [objects[a] if isinstance(a, int) else build(a) for a in args]
    options = {k: option(k, v) for k, v in kw.items()}
    try:
        if fn == '+':
            result = real[0] + real[1]
        elif fn == 'copy':
            result = real[0].copy()
        elif fn == 'output':
            segeval.output_linear_mass_json(real[0], real[1])
            with open(real[0]) as f:
                result = f.read()
        else:
            result = getattr(segeval, fn)(*real, **options)
        return result, form(result)
    except Exception as e:
        return None, ('raised', type(e).__name__)


def change(x, how):
    """The caller changes an object of its own."""
    try:
        if isinstance(x, segeval.Dataset):
            items = sorted(x, key=repr)
            if how % 3 == 0 and items:
                i = items[how % len(items)]
                coders = sorted(x[i], key=repr)
                m = x[i][coders[how % len(coders)]]
                if isinstance(m, tuple) and m and isinstance(m[0], int):
                    x[i][coders[how % len(coders)]] = tuple(reversed(m))
                elif isinstance(m, list) and m and isinstance(m[0], int):
                    # a new list: + hands on the very codings of its right operand
                    x[i][coders[how % len(coders)]] = m[::-1]
            elif how % 3 == 1:
                x['zz']['p'] = (2, 2)
                x['zz']['q'] = (1, 3)
            else:
                x.properties['changed'] = how
            return True
        if isinstance(x, segeval.ConfusionMatrix):
            x[1][2] += 3
            return True
        if isinstance(x, dict):
            for k in sorted(x, key=repr)[:1]:
                if isinstance(x[k], (int, Decimal)):
                    x[k] = x[k] + 1
                elif isinstance(x[k], list):
                    return change(x[k], how)
                elif isinstance(x[k], dict):
                    return change(x[k], how) or bool(x.clear()) or True
                elif isinstance(x[k], tuple):
                    x[k] = x[k][::-1]
                else:
                    x[k] = 'changed'
            if how % 2:
                x['new'] = 5
            return True
        if isinstance(x, list):
            if x and isinstance(x[0], set):
                x[how % len(x)] ^= {1}
            elif x and how % 3 == 0:
                x.reverse()
            elif how % 3 == 1:
                x.append(x[0] if x else 1)
            elif x:
                x.pop()
            return True
        if isinstance(x, set):
            x ^= {1, 'changed'}
            return True
        if isinstance(x, tuple):
            return any([change(v, how) for v in x])
    except Exception:
        return False
    return False


# -- executing in pristine processes ---------------------------------------------
def files(specs, folder):
    """Input files that calls may read."""
    os.environ['VERIF_CALLS'] = folder
    for name, data, properties in specs:
        path = os.path.join(folder, name)
        if name.endswith('.json'):
            if not os.path.isdir(os.path.dirname(path)):
                os.makedirs(os.path.dirname(path))
            doc = dict(properties, segmentation_type='linear', items={i: dict(cs) for i, cs in data})
            with open(path, 'w') as f:
                json.dump(doc, f)
        else:
            if not os.path.isdir(os.path.dirname(path)):
                os.makedirs(os.path.dirname(path))
            sep = properties.get('delimiter', '\t')
            with open(path, 'w') as f:
                f.write('coder%s1\n' % sep)
                for c, m in data[0][1]:
                    f.write('%s%s%s\n' % (c, sep, sep.join(map(str, m))))


def execute(payload):
    """A history of steps: the form of each call's result, and the first changed argument."""
    case, only = payload
    folder = tempfile.mkdtemp(prefix='calls-', dir=os.environ.get('VERIF_SCRATCH') or None)
    try:
        files(case.get('files', []), folder)
        objects = [build(spec) for spec in case['objects']]
        results, forms, changed = [], [], None
        printed, stdout = io.StringIO(), sys.stdout
        sys.stdout = printed
        was = settings.now()
        for k, step in enumerate(case['steps']):
            if step[0] == 'call':
                if only is not None and k != only:
                    continue
                watched = not case.get('order')
                before = [snapshot(o) for o in objects] if watched else []
                result, f = perform(step[1], objects)
                results.append(result)
                forms.append((k, f))
                after = [snapshot(o) for o in objects] if watched else []
                for i, (x, y) in enumerate(zip(before, after)):
                    if x != y and changed is None:
                        changed = (k, i, short(x), short(y))
                setting = settings.changed(was)
                if setting is not None and changed is None:
                    changed = (k,) + tuple(short(v) for v in setting)
                if printed.getvalue() and changed is None:
                    changed = (k, 'standard output', '', short(printed.getvalue()))
                if only is not None:
                    break
            elif step[0] == 'set':
                settings.put(step[1])
                was = settings.now()
            elif step[0] == 'change argument':
                if case['objects'][step[1]][0] != 'sample':
                    change(objects[step[1]], step[2])
            elif step[0] == 'write file':
                files([step[1]], folder)
            elif step[0] == 'change result' and only is None:
                if results:
                    change(results[step[1] % len(results)], step[2])
            elif step[0] == 'forget' and only is None:
                # drop an object and make an equal or another one: its identity may be reused
                objects[step[1]] = build(case['objects'][step[1]]) if case['objects'][step[1]][0] == 'masses' and \
                    not any(s[0] == 'change argument' and s[1] == step[1] for s in case['steps']) else objects[step[1]]
        return forms, changed
    finally:
        sys.stdout = stdout
        shutil.rmtree(folder, ignore_errors=True)


def prepare():
    for name in segeval.__all__:
        getattr(segeval, name)
    __import__("segeval.data.tsv")


pristine = Pristine(execute, prepare)


def check_history(case):
    try:
        forms, changed = pristine((case, None))
    except Crash:
        fail('the process died during the calls {0}', short(case['steps']))
    calls = dict((k, s[1]) for k, s in enumerate(case['steps']) if s[0] == 'call')
    require(changed is None, 'call {0} changed argument {1}', changed and short(calls[changed[0]]), changed and changed[1:])
    seen = {}
    for n, (k, f) in enumerate(forms):
        key = None
        if not any(s[0] in ('change argument', 'write file', 'set') for s in case['steps'][:k]):
            key = json.dumps(calls[k], sort_keys=True)
        if n == 0 and key is not None and not any(s[0] != 'call' for s in case['steps'][:k]):
            seen[key] = f       # the first call was made in a fresh process
            continue
        if key is None or key not in seen:
            try:
                want = pristine((case, k))[0][0][1]
            except Crash:
                fail('the process died during the call {0}', short(calls[k]))
            if key is not None:
                seen[key] = want
        else:
            want = seen[key]
        require(same(f, want), 'call {0} after {1} other calls gives {2}, in a fresh process {3}', short(calls[k], 500), n,
                short(f), short(want))
    kinds = {s[0] for s in case['steps']}
    return len(forms) > 2, sorted(kinds - {'call'}) + sorted({calls[k][0] for k, _ in forms}) + [
        'calls%d' % min(10, len(forms)), 'raised' if any(isinstance(f, tuple) and f and f[0] == 'raised' for _, f in forms) else '']


# -- generating histories -------------------------------------------------------
def gen_objects(s):
    n = s.int(2, 4) + s.draw(s.choice((4, 14)))
    out = []
    first = gen.boundaries(s, n)
    for k in range(s.int(2, 4)):
        out.append(['masses', gen.masses_of(n, first if k == 0 else gen.second(s, n, first)), s.bool()])
    out.append(['positions', gen.positions_of(out[0][1], gen.labels(s, len(out[0][1]))), s.bool()])
    out.append(['positions', gen.positions_of(out[1][1], gen.labels(s, len(out[1][1]))), s.bool()])
    a, b = gen.string_pair(s, 1, 7, 3)
    out.append(['string', a, s.bool()])
    out.append(['string', b, s.bool()])
    out.append(['text', gen.nltk_of(out[0][1])])
    out.append(['text', gen.nltk_of(out[1][1])])
    data = gen.full_dataset(s, 2, 10, 2, 3, 2)
    data = [[i, cs] for i, cs in data]
    out.append(['dataset', data, 'mass', s.bool()])
    other = gen.full_dataset(s, 2, 10, 2, 3, 2)
    out.append(s.choice((['dataset', [[i, [[c, gen.masses_of(sum(cs[0][1]), gen.boundaries(s, sum(cs[0][1])))] for c, _ in cs]] for i, cs in data],
                          'mass', s.bool()],
                         ['dataset', other, s.choice(('position', 'mass', 'nltk')), s.bool()],
                         ['sample', s.choice(SAMPLES)], ['sample', 'COMPLETE_AGREEMENT'])))
    out.append(['plain', data])
    cells = [[s.choice((1, 2, None, 'a')), s.choice((1, 2, None, 'a')), s.int(0, 5)] for _ in range(s.int(1, 5))]
    out.append(['matrix', cells])
    out.append(['matrices', [['m', cells], ['n', cells[:1]]]])
    out.append(['values', [['v%d' % i, s.int(-3, 9) if s.bool() else str(Decimal(s.int(0, 9)) / 4)] for i in range(s.int(1, 5))]])
    return out


def indices(objects, *kinds):
    return [i for i, o in enumerate(objects) if o[0] in kinds]


def refer(s, objects, i):
    """The shared object, or (if its description is plain) a fresh equal one."""
    if s.bool(1, 4) and objects[i][0] != 'sample':
        return objects[i]
    return i


def gen_call(s, objects, window_ok=True):
    pick = lambda *kinds: s.choice(indices(objects, *kinds))
    kind = s.weighted([(8, 'pair'), (4, 'dataset'), (4, 'agreement'), (3, 'conversion'), (2, 'window'), (2, 'edit'), (2, 'weight'),
                       (2, 'summary'), (3, 'ml'), (2, 'read'), (1, 'write'), (1, '+'), (1, 'copy'), (1, 'two')])
    kw = {}
    if kind == 'pair':
        fn = s.choice(PAIR)
        f = s.weighted([(4, 'mass'), (2, 'string'), (1, 'position'), (1, 'nltk')])
        if fn in WINDOW and f == 'string':
            f = 'mass'
        k = {'mass': 'masses', 'string': 'string', 'position': 'positions', 'nltk': 'text'}[f]
        args = [refer(s, objects, pick(k)), refer(s, objects, pick(k))]
        if f != 'mass' or s.bool(1, 6):
            kw['boundary_format'] = 'sets' if f == 'string' else f
        kw.update(gen_pair_options(s, fn))
    elif kind in ('dataset', 'two'):
        fn = s.choice(PAIR)
        i = pick('dataset', 'sample')
        args = [refer(s, objects, i)]
        if kind == 'two':
            args.append(pick('dataset', 'sample'))
        kw.update(gen_pair_options(s, fn))
        if s.bool(1, 4):
            kw['permuted'] = s.bool()
        if objects[i][0] == 'sample':
            kw['one_minus'] = False
            kw.pop('return_parts', None)
            if fn == 'boundary_statistics':
                kw.pop('one_minus')
    elif kind == 'agreement':
        fn = s.choice(AGREEMENT)
        args = [refer(s, objects, pick('dataset', 'plain', 'sample'))]
        if s.bool(1, 3):
            kw['n_t'] = s.int(1, 5)
        if s.bool(1, 3):
            kw['fnc_compare'] = s.choice(('boundary_similarity', 'segmentation_similarity'))
        if s.bool(1, 3):
            kw['return_parts'] = True
        if s.bool(1, 5):
            kw['weight'] = gen.weight(s)
    elif kind == 'conversion':
        fn = s.choice(('boundary_string_from_masses', 'convert_masses_to_positions', 'convert_positions_to_masses', 'convert_nltk_to_masses'))
        k = {'boundary_string_from_masses': 'masses', 'convert_masses_to_positions': 'masses', 'convert_positions_to_masses': 'positions',
             'convert_nltk_to_masses': 'text'}[fn]
        args = [refer(s, objects, pick(k))]
        if fn == 'convert_nltk_to_masses' and s.bool(1, 3):
            kw['boundary_symbol'] = s.choice(('1', '0'))
    elif kind == 'window':
        fn = 'compute_window_size'
        i = pick('masses', 'positions', 'dataset', 'plain')
        args = [refer(s, objects, i)]
        if objects[i][0] == 'positions' or objects[i][0] == 'dataset' and objects[i][2] == 'position':
            kw['boundary_format'] = 'position'
        if s.bool(1, 3):
            kw['fnc_round'] = s.choice(('ceil', 'floor', 'round'))
    elif kind == 'edit':
        fn = 'boundary_edit_distance'
        args = [refer(s, objects, pick('string')), refer(s, objects, pick('string'))]
        if s.bool(2, 3):
            kw['n_t'] = s.int(1, 6)
    elif kind == 'weight':
        fn = s.choice(('weight_a', 'weight_s', 'weight_s_scale', 'weight_t', 'weight_t_scale'))
        if fn == 'weight_a':
            args = [['edits', [[s.int(1, 3), s.choice('ab')] for _ in range(s.draw(4))]]]
        elif fn in ('weight_s', 'weight_s_scale'):
            args = [['edits', [[s.int(1, 3), s.int(1, 3)] for _ in range(s.draw(4))]], ['value', s.int(3, 5)], ['value', s.int(0, 1)]]
            args = args if s.bool() else args[:2]
        else:
            args = [['edits', [[i, i + s.int(1, 3), 1] for i in range(s.draw(4))]], ['value', s.int(1, 5)]]
    elif kind == 'summary':
        fn, args = 'summarize', [refer(s, objects, pick('values'))]
    elif kind == 'ml':
        fn = s.choice(('precision', 'recall', 'fmeasure'))
        i = pick('matrix', 'matrices')
        args = [i]
        if objects[i][0] == 'matrix' and s.bool(1, 3):
            kw['classification'] = s.choice([c for cell in objects[i][1] for c in cell[:2]])
        if s.bool():
            kw['version'] = s.choice(('micro', 'macro'))
        if fn == 'fmeasure' and s.bool():
            kw['beta'] = s.choice(('0.5', '2', '1'))
    elif kind == 'read':
        fn = s.choice(('input_linear_mass_json', 'input_linear_mass_tsv', 'load_nested_folders_dict'))
        args = [['path', {'input_linear_mass_json': 'tree/one.json', 'input_linear_mass_tsv': 'tree/two.tsv'}.get(fn, 'tree')]]
        if fn == 'input_linear_mass_tsv' and s.bool(1, 3):
            kw['delimiter'] = s.choice((',', '1', 'c'))
        if fn == 'load_nested_folders_dict':
            args.append(['value', s.choice(('json', 'tsv'))])
            if s.bool(1, 3):
                args.append(['dataset', s.choice(([], [['other item', [['c9', [1, 1]]]]])), 'mass', s.bool()])
    elif kind == 'write':
        fn = 'output'
        args = [['path', s.choice(('out1.json', 'out2.json'))], pick('dataset')]
    elif kind == '+':
        fn, args = '+', [pick('dataset'), pick('dataset')]
    else:
        fn, args = 'copy', [pick('dataset')]
    return [fn, args, kw]


def gen_pair_options(s, fn):
    kw = {}
    if fn in WINDOW:
        if s.bool(1, 3):
            kw['window_size'] = s.int(1, 6)
        if fn == 'window_diff' and s.bool(1, 4):
            kw['lamprier_et_al_2007_fix'] = True
        if s.bool(1, 6):
            kw['fnc_round'] = s.choice(('ceil', 'floor', 'round'))
    else:
        if s.bool():
            kw['n_t'] = s.int(1, 6)
        if s.bool(1, 4):
            kw['weight'] = gen.weight(s)
    if fn not in ('boundary_statistics', 'boundary_confusion_matrix'):
        flag = s.weighted([(4, None), (2, 'one_minus'), (2, 'return_parts')])
        if flag:
            kw[flag] = True
    return kw


def tweak(s, call, fn, args, kw, objects):
    """Changes, adds or drops one option."""
    choices = []
    if fn in PAIR and fn not in WINDOW:
        choices += [('n_t', lambda: s.int(1, 6)), ('weight', lambda: gen.weight(s))]
    if fn in WINDOW:
        choices += [('window_size', lambda: s.int(1, 6)), ('fnc_round', lambda: s.choice(('ceil', 'floor', 'round')))]
    if fn == 'window_diff':
        choices += [('lamprier_et_al_2007_fix', lambda: s.bool())]
    if fn in PAIR[:2] + WINDOW:
        choices += [('return_parts', lambda: True)] if 'one_minus' not in kw else []
        choices += [('one_minus', lambda: True)] if 'return_parts' not in kw else []
    if fn in PAIR:
        spec = objects[args[0]] if isinstance(args[0], int) else args[0]
        if spec[0] == 'masses':
            choices += [('boundary_format', lambda: s.choice(('mass', 'position')))]
        elif spec[0] in ('dataset', 'sample'):
            choices += [('permuted', lambda: s.bool())]
    if fn in AGREEMENT:
        choices += [('n_t', lambda: s.int(1, 5)), ('return_parts', lambda: True), ('weight', lambda: gen.weight(s)),
                    ('fnc_compare', lambda: s.choice(('boundary_similarity', 'segmentation_similarity')))]
    if fn == 'convert_nltk_to_masses':
        choices += [('boundary_symbol', lambda: s.choice(('0', '1')))]
    if fn == 'compute_window_size':
        choices += [('fnc_round', lambda: s.choice(('ceil', 'floor', 'round'))), ('boundary_format', lambda: s.choice(('mass', 'position')))]
    if fn == 'boundary_edit_distance':
        choices += [('n_t', lambda: s.int(1, 6))]
    if fn in ('precision', 'recall', 'fmeasure'):
        choices += [('version', lambda: s.choice(('micro', 'macro')))]
        if isinstance(args[0], int) and objects[args[0]][0] == 'matrix':
            choices += [('classification', lambda: s.choice([c for cell in objects[args[0]][1] for c in cell[:2]]))]
    if fn == 'fmeasure':
        choices += [('beta', lambda: s.choice(('0.5', '2', '1', '3')))]
    if choices:
        name, value = s.choice(choices)
        if name in kw and s.bool(1, 3):
            del kw[name]
        else:
            kw[name] = value()
    elif len(args) > 1 and isinstance(args[1], list) and args[1][0] == 'value' and isinstance(args[1][1], int):
        args[1] = ['value', s.int(3, 6)]


def vary(s, call, objects):
    """A call close to an earlier one: equal, or differing in one argument or option."""
    fn, args, kw = copy.deepcopy(call)
    how = s.weighted([(3, 'same'), (2, 'option'), (2, 'argument'), (2, 'swap'), (1, 'function'), (1, 'fresh')])
    if how == 'option':
        tweak(s, call, fn, args, kw, objects)
    elif how == 'argument' and args and isinstance(args[0], int):
        k = s.draw(len(args))
        if isinstance(args[k], int):
            same_kind = indices(objects, objects[args[k]][0])
            args[k] = s.choice(same_kind)
    elif how == 'swap' and len(args) == 2 and fn in PAIR + ('boundary_edit_distance',):
        args.reverse()
    elif how == 'function' and fn in PAIR:
        fn2 = s.choice(PAIR)
        if (fn2 in WINDOW) == (fn in WINDOW) and fn2 not in ('boundary_statistics', 'boundary_confusion_matrix'):
            kw.pop('lamprier_et_al_2007_fix', None)
            fn = fn2
    elif how == 'function' and fn in AGREEMENT:
        fn = s.choice(AGREEMENT)
    elif how == 'fresh':
        args = [objects[a] if isinstance(a, int) and objects[a][0] not in ('sample',) and fn != 'output' else a for a in args]
    return [fn, args, kw]


def gen_history(s):
    objects = gen_objects(s)
    for spec in objects:
        if spec[0] in ('dataset', 'plain') and s.bool(1, 8):
            spec[1].insert(s.draw(len(spec[1]) + 1), ['silent', []])      # an item nobody has coded
    steps, calls = [], []
    names = ['tree/one.json', 'tree/sub/three.json', 'tree/two.tsv']
    length = s.int(2, 4) + s.draw(s.choice((3, 8, 8, 20)))
    while len(steps) < length:
        kind = s.weighted([(9, 'call'), (9, 'vary'), (3, 'change result'), (3, 'change argument'), (1, 'forget'), (1, 'write file'), (1, 'set')])
        if kind == 'call' or not calls:
            call = gen_call(s, objects)
            calls.append(call)
            steps.append(['call', call])
        elif kind == 'vary':
            call = vary(s, s.choice(calls), objects)
            calls.append(call)
            steps.append(['call', call])
        elif kind == 'change result':
            steps.append([kind, s.draw(len(calls)), s.draw(6)])
            call = s.choice(calls[-3:])
            steps.append(['call', call])
        elif kind == 'change argument':
            used = [a for a in s.choice(calls)[1] if isinstance(a, int)]
            if used:
                a = s.choice(used)
                steps.append([kind, a, s.draw(6)])
                again = [c for c in calls if a in c[1]]
                if again:
                    steps.append(['call', s.choice(again)])
        elif kind == 'set':
            steps.append([kind, settings.generate(s)])
        elif kind == 'write file':
            readers = [c for c in calls if c[1] and isinstance(c[1][0], list) and c[1][0][0] == 'path' and c[0] != 'output']
            if readers:
                steps.append([kind, [s.choice(names), [['i', [['c1', gen.masses(s, 1, 6)], ['c3', [1]]]]], {'v': s.draw(3)}]])
                steps.append(['call', s.choice(readers)])
        else:
            steps.append([kind, s.choice(indices(objects, 'masses'))])
    data = [['i', [['c1', [1, 2]], ['c2', [3]]]], ['j', [['c1', [2, 2]]]]]
    return {'objects': objects, 'steps': steps,
            'files': [[names[0], data, {'note': [1]}], [names[1], data[:1], {}], [names[2], data, {}]]}


def gen_orders(s):
    """Many calls upon few objects, to be made in two orders."""
    case = gen_history(s)
    # the larger samples take long
    objects = [['sample', SAMPLES[len(o[1]) % 2]] if o[0] == 'sample' else o for o in case['objects']]
    calls = []
    length = s.int(8, 60)
    # few functions at a time, so that calls meet that differ in one option or argument
    while len(calls) < length:
        if not calls or s.bool(1, 4):
            calls.append(gen_call(s, objects))
        else:
            calls.append(vary(s, s.choice(calls), objects))
    return {'objects': objects, 'files': case['files'], 'steps': [['call', c] for c in calls], 'order': s.shuffled(range(len(calls)))}


# -- calls that are alike ---------------------------------------------------------
def rearranged(s, seq, how):
    seq = list(seq)
    if how == 0:
        return seq
    if how == 1:
        return seq[::-1]
    if how == 2:
        return seq[1:] + seq[:1]
    if how == 4:            # both ends stay
        return seq[:1] + s.shuffled(seq[1:-1]) + seq[-1:] if len(seq) > 3 else seq
    return s.shuffled(seq)


def like_masses(s, count):
    n = gen.size(s, 2, 60) if s.bool(4, 5) else gen.notable(s, s.int(20, 120), 300, 2)
    base = gen.boundaries(s, n) if n < 20 or s.bool() else [p for p in range(n - 1) if s.bool(2, 3)]
    out = [gen.masses_of(n, base)]
    while len(out) < count:
        k = s.draw(8)
        if k in (0, 1, 2, 7):
            out.append(rearranged(s, s.choice(out), min(k + 1, 4)))
        elif k == 3:
            out.append(gen.masses_of(n, gen.perturbed(s, n - 1, base)))
        elif k == 4:
            # as many segments
            m = s.choice(out)
            out.append(gen.masses_of(n, sorted(s.shuffled(range(n - 1))[:len(m) - 1])))
        else:
            out.append(gen.masses_of(n, gen.boundaries(s, n)))
    return out


def like_strings(s, count):
    a, b = gen.string_pair(s, 1, 40, 4)
    out = [a, b]
    while len(out) < count:
        base = s.choice(out[:4])
        k = s.draw(5)
        if k == 0:
            d = s.int(1, 5)
            out.append([[t + d for t in p] for p in base])
        elif k == 1:
            types = sorted({t for p in base for t in p})
            to = dict(zip(types, s.shuffled(types)))
            out.append([sorted(to[t] for t in p) for p in base])
        elif k == 4:
            # as many boundaries at every position, of other types
            pool = sorted({t for x in out for p in x for t in p} | {1, 2, 3, 4, 5, 6})
            out.append([sorted(s.shuffled(pool)[:len(p)]) for p in base])
        else:
            out.append(rearranged(s, base, k))
    # the package tries all pairings of differing types
    for i in range(len(out)):
        for j in range(i):
            gen._tame(out[i], out[j], 40)
    return out


def like_datasets(s, count):
    base = gen.full_dataset(s, 2, 14, 2, 4, 3)
    out = [base]
    while len(out) < count:
        data = []
        k = s.draw(4)
        for i, cs in s.choice(out):
            if k == 0:
                ms = rearranged(s, [m for _, m in cs], s.int(1, 3))
            elif k == 1:
                ms = [rearranged(s, m, s.draw(4)) for _, m in cs]
            elif k == 2:
                ms = [gen.masses_of(sum(m), gen.boundaries(s, sum(m))) for _, m in cs]
            else:
                ms = [m for _, m in cs]
            data.append([i, [[c, m] for (c, _), m in zip(cs, ms)]])
        if k == 3:
            data = s.shuffled(data)
            to = dict(zip([c for c, _ in data[0][1]], s.shuffled([c for c, _ in data[0][1]])))
            data = [[i, [[to.get(c, c), m] for c, m in cs]] for i, cs in data]
        out.append(data)
    return out


SPANS = (2, 1, 3, 4, 5, 6, 8, 10, 15, 25)


def wide_options(s, fn):
    kw = gen_pair_options(s, fn) if fn in PAIR else {}
    if fn in AGREEMENT:
        for k, v in (('n_t', lambda: s.choice(SPANS)), ('weight', lambda: gen.weight(s)), ('return_parts', lambda: True),
                     ('fnc_compare', lambda: s.choice(('boundary_similarity', 'segmentation_similarity')))):
            if s.bool(1, 3):
                kw[k] = v()
    if fn == 'boundary_edit_distance' and s.bool(3, 4) or 'n_t' in kw:
        kw['n_t'] = s.choice(SPANS) if s.bool(7, 8) else gen.mined_int(s, 1, 40)
    if 'window_size' in kw:
        kw['window_size'] = s.choice((2, 1, 3, 4, 5, 7, 10, 14, 20)) if s.bool(7, 8) else gen.mined_int(s, 1, 40)
    return kw


def gen_alike(s):
    """Calls of few functions upon arguments that have much in common, to be made in two orders."""
    kind = s.weighted([(4, 'masses'), (4, 'string'), (3, 'dataset'), (2, 'positions'), (2, 'nltk'), (1, 'matrix'), (1, 'values')])
    listy = s.bool(1, 3)
    count = s.int(3, 6)
    specs, extra = [], {}
    if kind == 'masses':
        specs = [['masses', m, listy] for m in like_masses(s, count)]
        fns = PAIR + ('boundary_string_from_masses', 'convert_masses_to_positions', 'compute_window_size')
    elif kind == 'positions':
        for m in like_masses(s, count):
            specs.append(['positions', gen.positions_of(m, gen.labels(s, len(m))), listy])
            if s.bool(1, 3):
                # labels used again
                specs.append(['positions', gen.positions_of(m, [1 + i % 2 for i in range(len(m))]), listy])
        fns = PAIR + ('convert_positions_to_masses', 'compute_window_size')
        extra = {'boundary_format': 'position'}
    elif kind == 'nltk':
        specs = [['text', gen.nltk_of(m)] for m in like_masses(s, count)]
        fns = PAIR + ('convert_nltk_to_masses',)
        extra = {'boundary_format': 'nltk'}
    elif kind == 'string':
        specs = [['string', m, listy] for m in like_strings(s, count)]
        fns = PAIR[:4] + ('boundary_edit_distance',)
        extra = {'boundary_format': 'sets'}
    elif kind == 'dataset':
        form_ = s.choice(('mass', 'mass', 'position', 'nltk'))
        specs = [['dataset', d, form_, listy] for d in like_datasets(s, count)]
        if form_ == 'mass':
            specs += [['plain', specs[0][1]], ['plain', specs[1][1]]] if s.bool(1, 3) else []
        fns = PAIR + AGREEMENT + AGREEMENT + ('two',)
    elif kind == 'matrix':
        classes = s.choice(((1, 2, None), ('a', 'b'), (1, 2, 3), (0, 1)))
        for _ in range(count):
            specs.append(['matrix', [[p, a, s.int(0, 5)] for p in classes for a in classes if s.bool(2, 3)] or [[classes[0], classes[1], 1]]])
        specs.append(['matrices', [['m', specs[0][1]], ['n', specs[1][1]]]])
        fns = ('precision', 'recall', 'fmeasure')
    else:
        base = [['v%d' % i, s.int(-3, 9)] for i in range(s.int(1, 6))]
        for _ in range(count):
            values = rearranged(s, [v for _, v in base], s.draw(4)) if s.bool() else [s.int(-3, 9) for _ in base]
            specs.append(['values', [[k, v] for (k, _), v in zip(base, values)]])
        fns = ('summarize',)
    fns = [s.choice(fns) for _ in range(s.int(1, 3))]
    options = {fn: [wide_options(s, fn) for _ in range(s.int(1, 4))] for fn in fns}
    calls = []
    shared = s.bool()
    for _ in range(s.int(6, 50)):
        fn = s.choice(fns)
        arity = 1 if kind in ('matrix', 'values') or fn.startswith('convert') or fn.startswith('boundary_string') or \
            fn == 'compute_window_size' or kind == 'dataset' and fn != 'two' else 2
        chosen = [s.draw(len(specs)) for _ in range(arity)]
        args = [i if shared or s.bool(1, 4) else specs[i] for i in chosen]
        kw = dict(s.choice(options[fn]))
        if kind == 'matrix':
            if s.bool():
                kw['version'] = s.choice(('micro', 'macro'))
            if fn == 'fmeasure':
                kw['beta'] = s.choice(('0.5', '2', '1'))
            if s.bool(1, 3) and specs[chosen[0]][0] == 'matrix':
                kw['classification'] = s.choice([c for c in specs[chosen[0]][1][0][:2]])
        if kind == 'dataset':
            if fn == 'two':
                fn = s.choice(PAIR)
                args = [x if isinstance(x, int) or x[0] == 'dataset' else specs[0] for x in args]
            elif fn in PAIR and specs[chosen[0]][0] == 'plain':
                args = [specs[0]]
        elif arity == 2 and fn != 'boundary_edit_distance' or fn == 'compute_window_size' and kind == 'positions':
            kw.update(extra)
        calls.append([fn, args, kw])
    return {'objects': specs, 'files': [], 'steps': [['call', c] for c in calls],
            'order': list(range(len(calls)))[::-1] if s.bool(1, 3) else s.shuffled(range(len(calls)))}


def check_orders(case):
    try:
        first, changed = pristine((case, None))
        order = case['order']
        if sorted(order) != list(range(len(case['steps']))):
            order = list(range(len(case['steps'])))[::-1]
        second, _ = pristine((dict(case, steps=[case['steps'][k] for k in order]), None))
    except Crash:
        fail('the process died during the calls {0}', short(case['steps']))
    require(changed is None, 'call {0} changed argument {1}', changed and short(case['steps'][changed[0]][1]), changed and changed[1:])
    for (n, f), k in zip(second, order):
        require(same(f, first[k][1]), 'call {0} gives {1} as call {2}, and {3} as call {4} of the same calls in another order',
                short(case['steps'][k][1], 500), short(f), n, short(first[k][1]), k)
    return len(case['steps']) > 2, sorted({step[1][0] for step in case['steps']})[:3]


# -- P27 -----------------------------------------------------------------------
def gen_rejected(s):
    fn = s.choice(PAIR)
    kind = s.weighted([(8, 'length'), (3, 'format'), (3, 'arguments'), (4, 'dataset'), (2, 'two datasets'), (2, 'formats differ'),
                       (2, 'agreement length'), (2, 'coders'), (2, 'average'), (2, 'strings'), (2, 'edit distance')])
    case = {'kind': kind, 'fn': fn, 'options': gen_pair_options(s, fn), 'call': s.choice(('positional', 'keyword'))}
    formats = sut.FORMATS[:3] if fn in WINDOW else sut.FORMATS
    f = case['format'] = s.choice(formats)
    lo = 1 if f in ('mass', 'position') else 2
    n = gen.size(s, lo, 120)
    if s.bool():
        m = max(lo, n + s.choice((1, -1, 2, -2, 3, 5)))
        if m == n:
            m = n + 1
    else:
        m = gen.size(s, lo, 120)
        if m == n:
            m += 1
    a = gen.boundaries(s, n)
    a = gen.masses_of(n, a)
    # often the longer text is the shorter one with something appended, or has as many segments
    style = s.draw(4)
    if style == 0:
        b = gen.masses_of(m, gen.boundaries(s, m))
    elif style == 1 and m > n:
        b = a + [m - n]
    elif style == 2 and m > n:
        b = a[:-1] + [a[-1] + m - n]
    else:
        b = gen.masses_of(m, [p for p in gen.boundaries(s, n) if p < m - 1])
    case['a'], case['b'] = a, b
    if s.bool():
        case['a'], case['b'] = b, a
    if kind == 'length':
        case['int'] = s.bool(1, 4)
    elif kind == 'strings':
        x, _ = gen.string_pair(s, 1, 12, 3)
        y, _ = gen.string_pair(s, 1, 12, 3)
        if len(x) == len(y):
            y = y + [[]] if s.bool() else y + [[1]]
        case['x'], case['y'], case['n_t'] = x, y, s.int(1, 5)
        case['fn'] = s.choice(PAIR[:4] + ('boundary_edit_distance',))
        case['options'] = {}
    elif kind == 'edit distance':
        case['n_t'] = s.int(1, 5)
    elif kind == 'format':
        case['bad'] = s.choice(('masses', 'Mass', '', 'position ', 'set', 'nltk2', 'none', 'MASS', 'pos', None, 0, 1, 99, ['mass'], 'sets'))
        if case['bad'] == 'sets' and fn not in WINDOW:
            case['bad'] = 'SETS'
        case['dataset'] = s.bool(1, 3)
    elif kind == 'arguments':
        case['which'] = s.choice(('none', 'one', 'one int', 'three', 'five', 'both empty', 'first empty', 'second empty', 'hypothesis', 'reference',
                                  'empty dataset', 'empty dataset keyword', 'one dict', 'None', 'first None', 'second None', 'empty text',
                                  'two empty datasets', 'second dataset empty', 'one and keyword', 'one text'))
        case['listy'] = s.bool()
    elif kind in ('dataset', 'two datasets', 'agreement length'):
        data = gen.full_dataset(s, max(lo, 2), 12, 2, 4, 3)
        case['data'] = data
        case['at'] = [s.draw(len(data)), s.draw(len(data[0][1])), s.choice((1, 2, -1, 5))]
        case['agreement'] = s.choice(AGREEMENT)
        case['compare'] = s.choice(('boundary_similarity', 'segmentation_similarity'))
    elif kind == 'formats differ':
        case['data'] = gen.full_dataset(s, 2, 10, 1, 3, 2)
        case['formats'] = s.shuffled(sut.FORMATS)[:2]
    elif kind == 'coders':
        data = gen.full_dataset(s, 2, 12, 2, 4, 4)
        style = s.choice(('one coder', 'uneven', 'none', 'empty item'))
        at = s.draw(len(data))
        if style == 'one coder':
            data = [[i, cs[:1]] for i, cs in data]
        elif style == 'none':
            data = []
        elif style == 'empty item':
            data = [[i, []] for i, _ in data]
        else:
            if len(data) == 1:
                data.append([str(data[0][0]) + '+', [list(c) for c in data[0][1]]])
            cs = data[at][1]
            data[at][1] = cs[:-1] if s.bool() else cs + [['another', cs[0][1]]]
        case.update(data=data, style=style, agreement=s.choice(AGREEMENT), container=s.choice(('Dataset', 'dict')), parts=s.bool(1, 3))
    elif kind == 'average':
        case['cells'] = [[s.choice((1, 2, None, 'a')), s.choice((1, 2, None, 'a')), s.int(0, 5)] for _ in range(s.int(1, 5))]
        case['version'] = s.choice(('micro', 'macro', '', 'Micro', None, 2, -1, 99, 'weighted', 'average', 3))
        case['ml'] = s.choice(('precision', 'recall', 'fmeasure'))
        case['many'] = s.bool(1, 3)
    return case


def with_length(masses, delta):
    out = list(masses)
    if delta < 0:
        if out[-1] + delta > 0:
            out[-1] += delta
            return out
        delta = -delta
    out[-1] += delta
    return out


def check_rejected(case):
    kind, f = case['kind'], case['format']
    fn = getattr(segeval, case['fn'])
    kw = {k: option(k, v) for k, v in case['options'].items()}
    label = [kind, case['fn']]

    def invoke(x, y, **more):
        if case['call'] == 'keyword':
            return lambda: fn(hypothesis=x, reference=y, **dict(kw, **more))
        return lambda: fn(x, y, **dict(kw, **more))
    E = SegmentationMetricError
    if kind == 'length':
        a, b = case['a'], case['b']
        if f == 'mass' and case['int'] and len(a) == 1:
            raises(E, invoke(a[0], tuple(b)), '{0} of {1} and {2}'.format(case['fn'], a[0], b))
        raises(E, invoke(sut.encode(a, f), sut.encode(b, f), boundary_format=sut.fmt(f)),
               '{0} of texts of {1} and {2} units, {3} format, {4}'.format(case['fn'], sum(a), sum(b), f, short(case['options'])))
        label += [f, 'by one' if abs(sum(a) - sum(b)) == 1 else 'by more']
    elif kind == 'strings':
        x, y = sut.string(case['x']), sut.string(case['y'])
        if case['fn'] == 'boundary_edit_distance':
            raises(E, lambda: fn(x, y, case['n_t']), 'boundary_edit_distance of strings of differing length')
        else:
            raises(E, invoke(x, y, boundary_format=sut.fmt('sets'), n_t=case['n_t']), case['fn'] + ' of strings of differing length')
    elif kind == 'edit distance':
        x, y = (segeval.boundary_string_from_masses(m) for m in (case['a'], case['b']))
        raises(E, lambda: segeval.boundary_edit_distance(x, y, n_t=case['n_t']), 'boundary_edit_distance of strings of differing length')
    elif kind == 'format':
        n = sum(case['a'])
        x, y = tuple(case['a']), (n,)
        if case['dataset']:
            data = {'i': {'c': x, 'd': y}}
            d = segeval.Dataset(data, boundary_format=case['bad'])
            raises(E, lambda: fn(d, **kw), '{0} of a dataset with format {1!r}'.format(case['fn'], case['bad']))
        elif case['bad'] == 'sets':
            x, y = sut.encode(case['a'], 'sets'), sut.encode([n], 'sets')
            if len(x):
                raises(E, invoke(x, y, boundary_format=sut.fmt('sets')), case['fn'] + ' of boundary sets')
        else:
            raises(E, invoke(x, y, boundary_format=case['bad']), '{0} with format {1!r}'.format(case['fn'], case['bad']))
    elif kind == 'arguments':
        which = case['which']
        wrap = list if case['listy'] else tuple
        x, e = wrap(case['a']), wrap(())
        d, none = sut.dataset([['i', [['c', case['a']], ['d', [sum(case['a'])]]]]]), segeval.Dataset()
        sets = {'boundary_format': sut.fmt('nltk')}
        calls = {
            'none': lambda: fn(**kw), 'one': lambda: fn(x, **kw), 'one int': lambda: fn(sum(x), **kw), 'three': lambda: fn(x, x, x, **kw),
            'five': lambda: fn(x, x, x, x, x, **kw), 'both empty': lambda: fn(e, e, **kw), 'first empty': invoke(e, x), 'second empty': invoke(x, e),
            'hypothesis': lambda: fn(hypothesis=x, **kw), 'reference': lambda: fn(reference=x, **kw), 'empty dataset': lambda: fn(none, **kw),
            'empty dataset keyword': lambda: fn(dataset=none, **kw), 'one dict': lambda: fn({'i': {'c': x, 'd': x}}, **kw),
            'None': invoke(None, None), 'first None': invoke(None, x), 'second None': invoke(x, None),
            'empty text': invoke('', '', **sets), 'two empty datasets': invoke(none, none), 'second dataset empty': invoke(d, none),
            'one and keyword': lambda: fn(x, reference=x, **kw), 'one text': lambda: fn('0100', **dict(kw, **sets))}
        raises(E, calls[which], '{0} called with arguments: {1}'.format(case['fn'], which))
        label.append(which)
    elif kind in ('dataset', 'agreement length'):
        data = copy.deepcopy(case['data'])
        i, c, delta = case['at']
        data[i][1][c % len(data[i][1])][1] = with_length(data[i][1][c % len(data[i][1])][1], delta)
        d = sut.dataset(data, f)
        if kind == 'dataset':
            raises(E, lambda: fn(d, **kw), '{0} of a dataset with texts of differing length'.format(case['fn']))
        else:
            ag = getattr(segeval, case['agreement'])
            raises(E, lambda: ag(d, fnc_compare=getattr(segeval, case['compare'])), case['agreement'] + ' with texts of differing length')
    elif kind == 'two datasets':
        data = copy.deepcopy(case['data'])
        i, c, delta = case['at']
        data[i][1][c % len(data[i][1])][1] = with_length(data[i][1][c % len(data[i][1])][1], delta)
        raises(E, invoke(sut.dataset(case['data'], f), sut.dataset(data, f)), '{0} of datasets with texts of differing length'.format(case['fn']))
        raises(E, invoke(sut.dataset(data, f), sut.dataset(case['data'], f)), '{0} of datasets with texts of differing length'.format(case['fn']))
    elif kind == 'formats differ':
        f, g = case['formats']
        raises(E, invoke(sut.dataset(case['data'], f), sut.dataset(case['data'], g)), '{0} of a {1} and a {2} dataset'.format(case['fn'], f, g))
    elif kind == 'coders':
        ag = getattr(segeval, case['agreement'])
        if case['container'] == 'dict':
            d = {i: {c: tuple(m) for c, m in cs} for i, cs in case['data']}
        else:
            d = sut.dataset(case['data'])
        parts = case['parts'] and (case['agreement'] != AGREEMENT[0] or case['style'] == 'uneven')     # the parts of no comparison are none
        raises(Exception, lambda: ag(d, return_parts=parts), '{0} with {1}'.format(case['agreement'], case['style']))
        label += [case['agreement'], case['style']]
    elif kind == 'average':
        m = build(['matrix', case['cells']])
        ml = getattr(segeval, case['ml'])
        raises(E, lambda: ml({'x': m} if case['many'] else m, version=case['version']), '{0} with averaging {1!r}'.format(case['ml'], case['version']))
        label.append(case['ml'])
    return True, label


# -- P30 ----------------------------------------------------------------------
DEFAULTS = {'n_t': 2, 'one_minus': False, 'return_parts': False, 'boundary_format': 'mass', 'weight': 'default',
            'window_size': None, 'fnc_round': 'round', 'lamprier_et_al_2007_fix': False, 'fnc_compare': 'boundary_similarity'}
ACCEPTED = {'boundary_similarity': ['n_t', 'one_minus', 'return_parts', 'boundary_format', 'weight', 'permuted'],
            'segmentation_similarity': ['n_t', 'one_minus', 'return_parts', 'boundary_format', 'weight', 'permuted'],
            'boundary_statistics': ['n_t', 'boundary_format', 'weight', 'permuted'],
            'boundary_confusion_matrix': ['n_t', 'boundary_format', 'weight', 'permuted'],
            'pk': ['one_minus', 'return_parts', 'boundary_format', 'window_size', 'fnc_round', 'permuted'],
            'window_diff': ['one_minus', 'return_parts', 'boundary_format', 'window_size', 'fnc_round', 'lamprier_et_al_2007_fix', 'permuted']}


def gen_calling(s):
    kind = s.weighted([(6, 'pair'), (4, 'dataset'), (2, 'two'), (3, 'int'), (3, 'agreement'), (2, 'other'), (2, 'precedence')])
    fn = s.choice(PAIR)
    case = {'kind': kind, 'fn': fn}
    formats = sut.FORMATS[:3] if fn in WINDOW else sut.FORMATS
    f = case['format'] = s.choice(formats) if kind in ('pair', 'dataset', 'two', 'precedence') else 'mass'
    case['a'], case['b'] = gen.mass_pair(s, 1 if f in ('mass', 'position') else 2, 80)
    case['options'] = gen_pair_options(s, fn)
    case['explicit'] = s.subset([k for k in ACCEPTED[fn] if k not in case['options'] and k != 'boundary_format'], 1, 3)
    case['permuted'] = s.weighted([(3, None), (1, True), (1, False)])
    if kind in ('dataset', 'precedence', 'two'):
        case['data'] = gen.full_dataset(s, 2, 12, 1, 4, 3)
        if kind == 'two':
            case['other'] = [[i, [['z%s' % c, gen.masses_of(sum(m), gen.boundaries(s, sum(m)))] for c, m in cs]] for i, cs in case['data']]
        case['wrong'] = s.choice(sut.FORMATS + ('nonsense',))
    if kind == 'int':
        case['n'] = gen.size(s, 1, 60)
        case['m'] = gen.masses_of(case['n'], gen.boundaries(s, case['n']))
        case['side'] = s.draw(3)
        case['options'].pop('lamprier_et_al_2007_fix', None)
    if kind == 'agreement':
        case['fn'] = s.choice(AGREEMENT)
        case['data'] = gen.full_dataset(s, 2, 14, 2, 4, 3)
        case['explicit'] = s.subset(['n_t', 'weight', 'fnc_compare', 'return_parts'], 1, 2)
        case['plain'] = s.bool(1, 3)
        case['options'] = {}
        case['format'] = s.choice(sut.FORMATS) if not case['plain'] else 'mass'
        case['wrong'] = s.choice(sut.FORMATS + ('nonsense',))
    if kind == 'other':
        case['cells'] = [[s.choice((1, 2, None, 'a')), s.choice((1, 2, None, 'a')), s.int(0, 5)] for _ in range(s.int(1, 6))]
        case['strings'] = gen.string_pair(s, 1, 10, 3)
        case['edits'] = [[s.int(1, 4), s.int(1, 4)] for _ in range(s.int(1, 4))]
    return case


def check_calling(case):
    kind, name = case['kind'], case['fn']
    fn = getattr(segeval, name)
    kw = {k: option(k, v) for k, v in case['options'].items()}
    explicit = {k: option(k, DEFAULTS[k]) for k in case['explicit'] if k != 'permuted'}
    permuted_default = name in WINDOW
    f = sut.fmt(case['format'])
    label = [kind, name]
    if kind == 'pair':
        x, y = (sut.encode(case[k], case['format']) for k in 'ab')
        base = dict(kw, boundary_format=f)
        first = fn(x, y, **base)
        agree(first, fn(hypothesis=x, reference=y, **base), name + ': keywords')
        agree(first, fn(reference=y, hypothesis=x, **base), name + ': keywords in another order')
        agree(first, fn(x, y, **dict(base, **explicit)), '{0}: with explicit defaults {1}'.format(name, sorted(explicit)))
        agree(first, fn(list(x) if not isinstance(x, str) else x, list(y) if not isinstance(y, str) else y, **base), name + ': lists')
        if case['permuted'] is not None:
            agree(first, fn(x, y, permuted=case['permuted'], **base), name + ': permuted matters to a pair')
        if case['format'] == 'mass':
            agree(first, fn(x, y, **kw), name + ': mass is the default format')
        if not any(case['options'].values()):
            documented = {k: option(k, DEFAULTS[k]) for k in ACCEPTED[name] if k not in ('permuted', 'boundary_format')}
            agree(first, fn(x, y, boundary_format=f, **documented), name + ': documented defaults')
        label.append(case['format'])
    elif kind == 'int':
        n, m = case['n'], tuple(case['m'])
        side = case['side']
        one = (n, m) if side == 0 else (m, n) if side == 1 else (n, n)
        two = ((n,), m) if side == 0 else (m, (n,)) if side == 1 else ((n,), (n,))
        agree(fn(*one, **kw), fn(*two, **kw), '{0}: integer for a single mass, {1}'.format(name, one))
        agree(fn(hypothesis=one[0], reference=one[1], **kw), fn(*two, **kw), name + ': integer keywords')
    elif kind in ('dataset', 'precedence', 'two'):
        if kind == 'precedence':
            explicit['boundary_format'] = case['wrong'] if case['wrong'] == 'nonsense' else sut.fmt(case['wrong'])
        d = sut.dataset(case['data'], case['format'])
        p = {} if case['permuted'] is None else {'permuted': case['permuted']}
        base = dict(kw, **p)
        if kind == 'two':
            e = sut.dataset(case['other'], case['format'])
            explicit['boundary_format'] = sut.fmt(case['wrong']) if case['wrong'] != 'nonsense' else 'nonsense'
            first = fn(d, e, **base)
            agree(first, fn(hypothesis=d, reference=e, **base), name + ': datasets as keywords')
            agree(first, fn(d, e, **dict(base, **explicit)), '{0}: explicit defaults {1}'.format(name, sorted(explicit)))
        else:
            first = fn(d, **base)
            agree(first, fn(dataset=d, **base), name + ': dataset=')
            agree(first, fn(d, **dict(base, **explicit)), '{0}: explicit {1}'.format(name, sorted(explicit.items(), key=str)))
            agree(first, fn(dataset=d, **dict(base, **explicit)), '{0}: dataset= and explicit {1}'.format(name, sorted(explicit)))
            if case['permuted'] is None:
                agree(first, fn(d, permuted=permuted_default, **kw), name + ': permuted default')
                coders = [len(cs) for _, cs in case['data']]
                want = sum(c * (c - 1) // (1 if permuted_default else 2) for c in coders)
                # entries are named after item and coders; distinct names give distinct entries
                require(len(first) == want, '{0}: {1} entries instead of {2}', name, len(first), want)
        label.append(case['format'])
    elif kind == 'agreement':
        d = {i: {c: tuple(m) for c, m in cs} for i, cs in case['data']} if case['plain'] else sut.dataset(case['data'], case['format'])
        m = model.Agreement([[i, [[c, model.bstring(x)] for c, x in cs]] for i, cs in case['data']], 2, 'b', 'default')
        e = {'fleiss_pi_linear': m.pi_e, 'fleiss_kappa_linear': m.kappa_e}.get(name, 0)
        if e == 1:
            return False, ('A_e=1',)
        first = fn(d)
        if not case['plain']:
            wrong = 'nonsense' if case['wrong'] == 'nonsense' else sut.fmt(case['wrong'])
            agree(first, fn(d, boundary_format=wrong), '{0}: the format of a dataset against {1!r}'.format(name, wrong))
        agree(first, fn(d, **explicit), '{0}: explicit defaults {1}'.format(name, sorted(explicit)))
        agree(first, fn(dataset=d), name + ': dataset=')
        agree(fn(d, return_parts=True), fn(dataset=d, return_parts=True, **{k: v for k, v in explicit.items() if k != 'return_parts'}),
              name + ': parts')
    else:
        m = build(['matrix', case['cells']])
        A = segeval.Average
        for ml in ('precision', 'recall', 'fmeasure'):
            g = getattr(segeval, ml)
            agree(g(m), g(m, version=A.micro), ml + ': micro is the default')
            agree(g(m), g(matrix=m, classification=None), ml + ': keywords')
            agree(g({'x': m})['x'], g(m), ml + ': dict of matrices')
            c = case['cells'][0][0]
            if c is not None:
                agree(g(m, c), g(m, classification=c), ml + ': classification')
        agree(segeval.fmeasure(m), segeval.fmeasure(m, beta=Decimal(1)), 'beta is 1 by default')
        x, y = map(sut.string, case['strings'])
        agree(segeval.boundary_edit_distance(x, y), segeval.boundary_edit_distance(x, y, 2), 'n_t is 2 by default')
        agree(segeval.boundary_edit_distance(x, y), segeval.boundary_edit_distance(boundary_string_a=x, boundary_string_b=y, n_t=2), 'keywords')
        subs = [tuple(e) for e in case['edits']]
        agree(segeval.weight_s_scale(subs, 5), segeval.weight_s_scale(subs, 5, 1), 'min_s is 1 by default')
        agree(segeval.weight_s(subs, 5), segeval.weight_s(subs, max_s=5, min_s=1), 'weight_s')
        agree(segeval.compute_window_size(tuple(case['a'])), segeval.compute_window_size(tuple(case['a']), fnc_round=round, boundary_format=sut.fmt('mass')),
              'window size defaults')
        t = gen.nltk_of(case['a'])
        agree(segeval.convert_nltk_to_masses(t), segeval.convert_nltk_to_masses(t, boundary_symbol='1'), 'NLTK default symbol')
        d = segeval.Dataset({'i': {'c': (1, 2)}})
        agree(d.boundary_format, sut.fmt('mass'), 'default format of a dataset')
        require(set(d.boundary_types) == {1} and dict(d.properties) == {}, 'default types or properties of a dataset')
    return True, label + sorted(case['explicit'])[:2]


SUBS = {
    'P25': [Sub('histories', gen_history, check_history, 1600, 40000),
            Sub('orders', gen_orders, check_orders, 1000, 20000),
            Sub('alike', gen_alike, check_orders, 2000, 60000)],
    'P27': [Sub('calls', gen_rejected, check_rejected, 16000)],
    'P30': [Sub('calls', gen_calling, check_calling, 12000)],
}
