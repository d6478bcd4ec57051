"""Server that has not imported the package: forks a process per list of first uses."""
import os
import pickle
import struct
import sys
import traceback


def read(fd, n):
    out = b''
    while len(out) < n:
        part = os.read(fd, n - len(out))
        if not part:
            raise EOFError()
        out += part
    return out


def receive(fd):
    return pickle.loads(read(fd, struct.unpack('>I', read(fd, 4))[0]))


def send(fd, value):
    data = pickle.dumps(value, 2)
    data = struct.pack('>I', len(data)) + data
    while data:
        data = data[os.write(fd, data):]


USES = {
    'B': ('boundary_similarity', lambda f, g: f((2, 3, 1), (1, 4, 1), n_t=3)),
    'S': ('segmentation_similarity', lambda f, g: f((2, 3, 1), (1, 4, 1))),
    'stat': ('boundary_statistics', lambda f, g: sorted(f((2, 3), (1, 4)).items(), key=str)),
    'CM': ('boundary_confusion_matrix', lambda f, g: f((2, 3), (1, 4))[1][1]),
    'pk': ('pk', lambda f, g: f((2, 3, 1), (1, 4, 1))),
    'wd': ('window_diff', lambda f, g: f((2, 3, 1), (1, 4, 1), lamprier_et_al_2007_fix=True)),
    'size': ('compute_window_size', lambda f, g: f((5, 9, 2))),
    'bed': ('boundary_edit_distance', lambda f, g: f((frozenset([1]), frozenset()), (frozenset(), frozenset([1])))),
    'string': ('boundary_string_from_masses', lambda f, g: f((2, 1))),
    'positions': ('convert_masses_to_positions', lambda f, g: f((2, 1))),
    'masses': ('convert_positions_to_masses', lambda f, g: f((2, 2, 1))),
    'nltk': ('convert_nltk_to_masses', lambda f, g: f('0100')),
    'weights': ('weight_t_scale', lambda f, g: f([(0, 1, 1)], 2)),
    'summary': ('summarize', lambda f, g: f({'a': 1, 'b': 2})),
    'agreement': ('actual_agreement_linear', lambda f, g: f({'i': {'a': (2, 3), 'b': (1, 4)}})),
    'pi': ('fleiss_pi_linear', lambda f, g: f({'i': {'a': (2, 3), 'b': (1, 4)}})),
    'kappa': ('fleiss_kappa_linear', lambda f, g: f({'i': {'a': (2, 3), 'b': (1, 4)}})),
    'bias': ('artstein_poesio_bias_linear', lambda f, g: f({'i': {'a': (2, 3), 'b': (1, 4)}})),
    'dataset': ('Dataset', lambda f, g: sorted((f({'i': {'a': (2, 3)}}) + f({'i': {'b': (1, 4)}})).coders)),
    'pairs': ('Dataset', lambda f, g: g('pk')(f({'i': {'a': (2, 3), 'b': (1, 4)}}))),
    'sample': ('HEARST_1997_STARGAZER', lambda f, g: g('fleiss_pi_linear')(f)),
    'matrix': ('ConfusionMatrix', lambda f, g: (f()[1][2], g('precision')(f()))),
    'fmeasure': ('fmeasure', lambda f, g: f(g('boundary_confusion_matrix')((2, 3), (2, 3)))),
    'json': ('input_linear_mass_json', lambda f, g: sorted(f(sys.argv[1] + '/segeval/data/hearst1997.json').coders)),
    'tsv': ('input_linear_mass_tsv', lambda f, g: sorted(f(sys.argv[1] + '/segeval/data/hearst1997.tsv').coders)),
    'none': ('boundary_similarity', lambda f, g: refused(f)),
}


def refused(f):
    try:
        f()
    except Exception as e:
        return type(e).__name__
    return 'not refused'


def use(name, get):
    first, fn = USES[name]
    return repr(fn(get(first), get))


def steps(case):
    """What each step gives; objects are identified by number within this process."""
    numbers, kept, out = {}, [], []

    def number(x):
        kept.append(x)
        return numbers.setdefault(id(x), len(numbers))
    for step in case:
        kind = step[0]
        try:
            if kind == 'attr':
                import segeval
                out.append(('object', number(getattr(segeval, step[1]))))
            elif kind == 'from':
                scope = {}
                exec('from %s import %s as it' % (step[1], step[2]), scope)
                out.append(('object', number(scope['it'])))
            elif kind == 'import':
                __import__(step[1])
                out.append(('object', number(sys.modules[step[1]])))
            elif kind == 'module attr':
                # what the module itself holds
                __import__(step[1])
                out.append(('object', number(vars(sys.modules[step[1]])[step[2]])))
            elif kind == 'import as':
                scope = {}
                exec('import %s as it' % step[1], scope)
                out.append(('object', number(scope['it'])))
            elif kind == 'star':
                scope = {}
                exec('from segeval import *', scope)
                out.append(('names', {k: number(v) for k, v in scope.items() if not k.startswith('__')}))
            elif kind == 'dir':
                import segeval
                out.append(('listing', sorted(dir(segeval)), sorted(segeval.__all__)))
            elif kind == 'bad':
                import segeval
                getattr(segeval, step[1])
                out.append(('object', -1))
            elif kind == 'use':
                import segeval
                out.append(('value', use(step[1], lambda n: getattr(segeval, n))))
        except Exception as e:
            out.append(('raised', type(e).__name__, traceback.format_exc()[-600:]))
    return out


def main():
    sys.path.insert(0, sys.argv[1])
    assert 'segeval' not in sys.modules
    while True:
        try:
            case = receive(0)
        except EOFError:
            return
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                send(w, steps(case))
            finally:
                os._exit(0)
        os.close(w)
        try:
            answer = receive(r)
        except EOFError:
            answer = None
        os.close(r)
        os.waitpid(pid, 0)
        send(1, answer)


if __name__ == '__main__':
    main()
