"""P26: first uses of public names and modules, in any order, in fresh interpreters."""
import os
import subprocess
import sys
import segeval
from harness import importer
from harness.core import REPO, Sub, require, fail, short

# the public names and where they are defined
NAMES = {
    'segeval.agreement': ['actual_agreement_linear'],
    'segeval.agreement.bias': ['artstein_poesio_bias_linear'],
    'segeval.agreement.kappa': ['fleiss_kappa_linear'],
    'segeval.agreement.pi': ['fleiss_pi_linear'],
    'segeval.data': ['Dataset', 'load_nested_folders_dict'],
    'segeval.data.jsonutils': ['Field', 'input_linear_mass_json', 'output_linear_mass_json'],
    'segeval.data.tsv': ['input_linear_mass_tsv'],
    'segeval.data.samples': ['KAZANTSEVA2012_G5', 'KAZANTSEVA2012_G2', 'COMPLETE_AGREEMENT', 'LARGE_DISAGREEMENT',
                             'HEARST_1997_STARGAZER', 'HYPOTHESIS_STARGAZER'],
    'segeval.ml': ['Average', 'precision', 'recall', 'fmeasure', 'ConfusionMatrix'],
    'segeval.similarity': ['boundary_confusion_matrix', 'boundary_statistics'],
    'segeval.similarity.boundary': ['boundary_similarity'],
    'segeval.similarity.segmentation': ['segmentation_similarity'],
    'segeval.similarity.distance.multipleboundary': ['boundary_edit_distance'],
    'segeval.similarity.weight': ['weight_a', 'weight_s', 'weight_s_scale', 'weight_t', 'weight_t_scale'],
    'segeval.window': ['compute_window_size'],
    'segeval.window.pk': ['pk'],
    'segeval.window.windowdiff': ['window_diff'],
    'segeval.compute': ['summarize'],
    'segeval.format': ['BoundaryFormat', 'boundary_string_from_masses', 'convert_positions_to_masses', 'convert_masses_to_positions',
                       'convert_nltk_to_masses'],
}
ORIGIN = {n: m for m in sorted(NAMES) for n in NAMES[m]}
PUBLIC = sorted(ORIGIN)


def package_modules():
    out = []
    root = os.path.join(REPO, 'segeval')
    for folder, dirs, files in os.walk(root):
        dirs.sort()
        dirs[:] = [d for d in dirs if os.path.exists(os.path.join(folder, d, '__init__.py'))]
        package = '.'.join(['segeval'] + os.path.relpath(folder, root).split(os.sep)).replace('..', '').rstrip('.')
        for f in sorted(files):
            if f == '__init__.py':
                out.append(package)
            elif f.endswith('.py') and not f.endswith('test.py'):
                out.append(package + '.' + f[:-3])
    return sorted(out)


MODULES = package_modules()
BAD = ['nothing', 'Boundary_similarity', 'boundary_similarityx', '_boundary_similarity', 'WindowDiff', 'Pk', 'SegmentationMetricError',
       'numpy', 'DataIOError', 'input_linear_positions_tsv', 'compute_pairwise_values', '__boundary_similarity__', 'b', 'segmentation', 'Dataset_',
       'KAZANTSEVA2012', 'weight', 'edit_distance']

_server = []


def ask(case):
    if not _server:
        env = dict(os.environ)
        env.pop('PYTHONDONTWRITEBYTECODE', None)
        _server.append(subprocess.Popen([sys.executable, '-W', 'ignore', importer.__file__, REPO], stdin=subprocess.PIPE,
                                        stdout=subprocess.PIPE, env=env))
    p = _server[0]
    importer.send(p.stdin.fileno(), case)
    return importer.receive(p.stdout.fileno())


def gen_step(s):
    kind = s.weighted([(6, 'attr'), (4, 'from'), (5, 'import'), (3, 'definition'), (3, 'use'), (1, 'bad'), (1, 'star'), (1, 'dir'), (1, 'import as'),
                       (1, 'module attr')])
    if kind == 'attr':
        return ['attr', s.choice(PUBLIC)]
    if kind == 'from':
        return ['from', 'segeval', s.choice(PUBLIC)]
    if kind in ('definition', 'module attr'):
        n = s.choice(PUBLIC)
        return ['from' if kind == 'definition' else kind, ORIGIN[n], n]
    if kind in ('import', 'import as'):
        return [kind, s.choice(MODULES)]
    if kind == 'use':
        return ['use', s.choice(sorted(importer.USES))]
    if kind == 'bad':
        return ['bad', s.choice(BAD) if s.bool() else variant(s.choice(PUBLIC), s.draw(8))]
    return [kind]


def variant(n, how):
    """A name like an exported one that is not exported."""
    v = (n.lower(), n.upper(), n.capitalize(), n + '_', '_' + n, n.replace('_', ''), n[:-1], n.split('_')[0])[how]
    taken = set(PUBLIC) | {part for m in MODULES for part in m.split('.')}
    return v if v and v not in taken and not v.startswith('__') else n + 'x'


def gen_order(s):
    steps = [gen_step(s) for _ in range(s.int(1, 3) + s.draw(s.choice((3, 8))))]
    if s.bool(1, 3):
        # the same name in every way
        n = s.choice(PUBLIC)
        steps += s.shuffled([['attr', n], ['from', 'segeval', n], ['from', ORIGIN[n], n], ['module attr', ORIGIN[n], n]])
    if s.bool(1, 4):
        # a name, and then one like it
        n = s.choice(PUBLIC)
        steps += [s.choice((['attr', n], ['from', 'segeval', n])), ['bad', variant(n, s.draw(8))]]
    if s.bool(1, 12):
        steps = [['attr', n] for n in s.shuffled(PUBLIC)] + steps
    return steps


def enum_first(tier):
    """Every name and module first, in every way, then everything else."""
    for n in PUBLIC:
        for first in (['attr', n], ['from', 'segeval', n], ['from', ORIGIN[n], n]):
            yield [first, ['attr', n], ['from', 'segeval', n], ['module attr', ORIGIN[n], n], ['star'], ['bad', 'nothing']] + [
                ['bad', variant(n, k)] for k in range(8)]
    for m in MODULES:
        yield [['import', m], ['import as', m], ['star'], ['dir']]
    for u in sorted(importer.USES):
        yield [['use', u], ['star'], ['use', u]]
    if tier != 'quick':
        for m in MODULES:
            for k in MODULES:
                if m != k:
                    yield [['import', m], ['import', k], ['star']]
        for m in PUBLIC:
            for k in PUBLIC:
                if m != k:
                    yield [['attr', m], ['attr', k], ['from', 'segeval', m]]


_values = {}


def check_order(case):
    got = ask(case)
    require(got is not None, 'the interpreter died during {0}', short(case))
    require(len(got) == len(case), 'no answer')
    denoted = {}

    def same_object(name, number, step):
        old = denoted.setdefault(name, number)
        require(old == number, '{0} denotes another object than before after {1}', name, short(case))
    for step, answer in zip(case, got):
        kind = step[0]
        if kind == 'bad':
            require(answer[:2] == ('raised', 'AttributeError'), 'segeval.{0}, which is not exported, gave {1} in {2}', step[1], answer[:2], short(case))
            continue
        require(answer[0] != 'raised', '{0} raised {1} in {2}\n{3}', step, answer[1:2], short(case), answer[-1])
        if kind == 'attr':
            same_object(step[1], answer[1], step)
        elif kind in ('from', 'module attr'):
            same_object(step[2], answer[1], step)
        elif kind in ('import', 'import as'):
            same_object('module ' + step[1], answer[1], step)
        elif kind == 'star':
            require(set(PUBLIC) <= set(answer[1]), 'from segeval import * lacks {0} in {1}', sorted(set(PUBLIC) - set(answer[1])), short(case))
            for n in PUBLIC:
                same_object(n, answer[1][n], step)
        elif kind == 'dir':
            for listing in answer[1:]:
                require(set(PUBLIC) <= set(listing), 'dir or __all__ lacks {0} in {1}', sorted(set(PUBLIC) - set(listing)), short(case))
        elif kind == 'use':
            if step[1] not in _values:
                sys.argv[1:] = [REPO]
                _values[step[1]] = importer.use(step[1], lambda n: getattr(segeval, n))
            require(answer[1] == _values[step[1]], 'using {0} gave {1} instead of {2} in {3}', step[1], short(answer[1]), short(_values[step[1]]),
                    short(case))
    return len(case) > 1, sorted({s[0] for s in case}) + ['first: ' + case[0][0]]


SUBS = {'P26': [Sub('orders', gen_order, check_order, 1200, 60000, enum=enum_first)]}
