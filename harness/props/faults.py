"""P32 failing and interrupted calls; P33 failing reads and writes."""
from __future__ import division
import io
import json
import os
import resource
import shutil
import signal
import sys
import tempfile
import threading
from decimal import Decimal
import segeval
from segeval.data import DataIOError
from segeval.data.tsv import input_linear_positions_tsv
from harness import gen, sut, settings
from harness.core import Sub, require, fail, short, same, raises
from harness.interleave import ROOT
from harness.pristine import Pristine, Crash
from harness.props import calls, files
from harness.props.calls import build, form, option, perform, snapshot, prepare
from harness.props.files import Folder, content, open_files


# -- P32 ----------------------------------------------------------------------
SECONDS = 60            # later calls that take longer hang


class Interrupt(KeyboardInterrupt):
    pass


class Refusal(Exception):
    """Raised by a function the caller supplies."""


REFUSALS = [Refusal] + [type('Refused' + kind.__name__, (Refusal, kind), {}) for kind in (
    TypeError, ValueError, KeyError, AttributeError, ArithmeticError, IndexError, OSError, ZeroDivisionError)]


def interrupted(call, objects, steps, fine):
    """The outcome of a call into which an interrupt is raised after so many lines (instructions)."""
    fn, args, kw = call
    left = [steps]
    known = {}

    def trace(frame, event, arg):
        name = frame.f_code.co_filename
        mine = known.get(name)
        if mine is None:
            mine = known[name] = os.path.realpath(name).startswith(ROOT)
        if not mine:
            return None
        if fine:
            frame.f_trace_opcodes = True
        left[0] -= 1
        if left[0] == 0:
            raise Interrupt()
        return trace
    real = [objects[a] if isinstance(a, int) else build(a) for a in args]
    options = {k: option(k, v) for k, v in kw.items()}
    sys.settrace(trace)
    try:
        if fn == '+':
            real[0] + real[1]
        elif fn == 'copy':
            real[0].copy()
        elif fn == 'output':
            segeval.output_linear_mass_json(real[0], real[1])
        else:
            getattr(segeval, fn)(*real, **options)
        return 'done' if left[0] > 0 else 'swallowed'
    except Interrupt:
        return 'interrupted'
    except Exception as e:
        return 'raised' if left[0] > 0 else 'turned into ' + repr(e)
    finally:
        sys.settrace(None)


def refused(call, objects, at, nth, kind):
    """The outcome of a call that is given functions of which one raises when called for the nth time."""
    fn, args, kw = call
    kw = {k: option(k, v) for k, v in kw.items()}
    count = [nth]

    def wrap(f):
        def supplied(*args_, **kwargs):
            count[0] -= 1
            if count[0] == 0:
                raise REFUSALS[kind]()
            return f(*args_, **kwargs)
        return supplied
    if fn in calls.PAIR[:4] + calls.AGREEMENT:
        kw['weight'] = tuple(wrap(w) if at >> k & 1 else w for k, w in enumerate(kw.get('weight', sut.weights(''))))
    if fn in calls.AGREEMENT and at & 8:
        kw['fnc_compare'] = wrap(kw.get('fnc_compare', segeval.boundary_similarity))
    if fn in calls.WINDOW or fn == 'compute_window_size':
        kw['fnc_round'] = wrap(kw.get('fnc_round', round))
    real = [objects[a] if isinstance(a, int) else build(a) for a in args]
    try:
        getattr(segeval, fn)(*real, **kw)
        return 'done' if count[0] > 0 else 'swallowed'
    except Refusal:
        return 'refused'
    except Exception as e:
        return 'raised' if count[0] > 0 else 'turned into ' + repr(e)


def afterwards(case, objects):
    """The forms of the later calls, or None if they do not end; made in another thread if the case says so."""
    forms = []

    def work():
        for c in case['later']:
            forms.append(perform(c, objects)[1])
    if case.get('thread'):
        thread = threading.Thread(target=work)
        thread.daemon = True
        thread.start()
        thread.join(SECONDS)
        return forms if len(forms) == len(case['later']) else None
    work()
    return forms


def execute(payload):
    """Outcomes of the failing calls, what they changed, and the forms of the later calls."""
    case, fresh = payload
    folder = tempfile.mkdtemp(prefix='faults-', dir=os.environ.get('VERIF_SCRATCH') or None)
    try:
        calls.files(case['files'], folder)
        objects = [build(spec) for spec in case['objects']]
        before = [snapshot(o) for o in objects]
        where, was = os.getcwd(), settings.now()
        outcomes, changed = [], None
        for k, (call, how) in enumerate([] if fresh else case['failing']):
            if how[0] == 'refuse':
                outcomes.append(refused(call, objects, *how[1:]))
            else:
                outcomes.append(interrupted(call, objects, how[1], how[2]))
            for i, (x, y) in enumerate(zip(before, [snapshot(o) for o in objects])):
                if x != y and changed is None:
                    changed = (k, 'argument %d' % i, short(x), short(y))
            setting = settings.changed(was)
            if setting is not None and changed is None:
                changed = (k,) + tuple(short(v) for v in setting)
                os.chdir(where)
        return outcomes, changed, afterwards(case, objects)
    finally:
        shutil.rmtree(folder, ignore_errors=True)


pristine = Pristine(execute, prepare)


def check_failing(case):
    try:
        outcomes, changed, later = pristine((case, False))
    except Crash:
        fail('the process died during the calls {0}', short(case['failing']))
    for (call, how), outcome in zip(case['failing'], outcomes):
        require(outcome in ('done', 'raised', 'interrupted', 'refused'), 'call {0}: the exception of {1} was {2}', short(call, 400), how, outcome)
    require(changed is None, 'call {0}, stopped at {1}, left {2} changed', changed and short(case['failing'][changed[0]][0], 400),
            changed and case['failing'][changed[0]][1], changed and changed[1:])
    _, _, want = pristine((case, True))
    require(later is not None and want is not None, 'the later calls do not end after calls stopped at {0}',
            short([how for _, how in case['failing']]))
    for call, x, y in zip(case['later'], later, want):
        require(same(x, y), 'call {0} gives {1} after calls stopped at {2}, else {3}', short(call, 400), short(x),
                short([how for _, how in case['failing']]), short(y))
    stopped = [c[0] for (c, _), o in zip(case['failing'], outcomes) if o in ('interrupted', 'refused')]
    return len(stopped) > 0, sorted(set(stopped)) + sorted(set(outcomes))


def gen_failing(s):
    refuse = s.bool(1, 3)
    usable = (lambda c: c[0] in calls.PAIR + calls.AGREEMENT + ('compute_window_size',)) if refuse else (lambda c: True)
    case = calls.gen_alike(s) if s.bool() else calls.gen_history(s)
    pool = [step[1] for step in case['steps'] if step[0] == 'call']
    while not any(usable(c) for c in pool):
        case = calls.gen_history(s)
        pool = [calls.gen_call(s, case['objects']) for _ in range(8)]
    objects = [['sample', calls.SAMPLES[len(o[1]) % 2]] if o[0] == 'sample' else o for o in case['objects']]
    failing = []
    for _ in range(s.weighted([(3, 1), (2, 2), (1, 4)])):
        call = s.choice([c for c in pool if usable(c)])
        if refuse:
            failing.append([call, ['refuse', 1 + s.draw(15), s.weighted([(4, 1), (3, 2), (2, 3), (1, 1 + s.draw(9))]), s.draw(len(REFUSALS))]])
        else:
            failing.append([call, ['interrupt', 1 + s.draw(s.choice((10, 60, 300, 1500))), s.bool(1, 4)]])
    later = [s.choice([c for c, _ in failing] if s.bool() else pool) for _ in range(s.int(1, 3))]
    return {'objects': objects, 'files': case['files'], 'failing': failing, 'later': later, 'thread': s.bool(1, 3)}


# -- P33 ----------------------------------------------------------------------
def limited(what, value, fn):
    """fn() under a lower limit of a resource."""
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    old = resource.getrlimit(what)
    resource.setrlimit(what, (value, old[1]))
    try:
        return fn()
    finally:
        resource.setrlimit(what, old)


def lowest_descriptor():
    fd = os.open(os.devnull, os.O_RDONLY)
    os.close(fd)
    return fd


def attempt(fn):
    """What fn returned, or the exception."""
    try:
        return ('returned', fn())
    except Exception as e:
        return ('raised', e)


UNWRITABLE = ('object', 'set', 'decimal', 'complex', 'bytes', 'loop', 'deep')


def unwritable(kind):
    if kind == 'loop':
        x = []
        x.append(x)
        return x
    return {'object': object(), 'set': {1, 2}, 'decimal': Decimal(1), 'complex': 1j, 'bytes': b'x', 'deep': {'a': [{'b': {3}}]}}[kind]


def gen_write(s):
    data = files.gen_mass_dataset(s)
    return {'data': data, 'properties': files.gen_properties(s), 'existing': None if s.bool() else files.gen_mass_dataset(s),
            'type': s.bool(1, 3),
            'cuts': [s.draw(1000) for _ in range(s.int(1, 4))], 'folder': s.bool(1, 4),
            'bad': s.choice(UNWRITABLE) if s.bool(1, 3) else None, 'where': s.draw(3)}


def make(data, properties):
    return segeval.Dataset({i: {c: tuple(m) for c, m in cs} for i, cs in data}, properties=dict(properties))


def check_write(case):
    write, read = segeval.output_linear_mass_json, segeval.input_linear_mass_json
    labels = set()
    with Folder() as folder:
        dataset = make(case['data'], case['properties'])
        if case['type']:
            dataset.properties['segmentation_type'] = ''.join(['lin', 'ear'])       # as if read from a file
        before = (content(dataset), repr(sorted(dataset.properties.items(), key=repr)))
        reference = os.path.join(folder, 'reference.json')
        write(reference, dataset)
        size = os.path.getsize(reference)
        target = os.path.join(folder, 'out')
        if case['folder']:
            os.mkdir(target)
        path = os.path.join(target, 'output.json') if case['folder'] else target
        old = None
        if case['existing'] is not None:
            other = make(case['existing'], {'old': 1})
            write(target, other)
            old = content(other)

        def left_behind(what):
            require(not open_files(folder), '{0} left files open: {1}', what, open_files(folder))
            kind, got = attempt(lambda: read(path))
            if kind == 'returned':
                require(content(got) in (content(dataset), old), '{0} left behind a file that is read as {1}', what, short(content(got)))
                if content(got) == content(dataset) and content(got) != old:
                    left = {k: v for k, v in got.properties.items() if k != 'segmentation_type'}
                    require(files.typed(left) == files.typed(dict(case['properties'])), '{0} left behind a file with properties {1}', what, short(left))
            require((content(dataset), repr(sorted(dataset.properties.items(), key=repr))) == before, '{0} changed the dataset', what)
        for cut in case['cuts']:
            at = cut if cut < size and cut % 2 else cut * size // 1000
            what = 'a write stopped by the system after {0} of {1} bytes'.format(at, size)
            kind, e = limited(resource.RLIMIT_FSIZE, at, lambda: attempt(lambda: write(target, dataset)))
            require(kind == 'raised', '{0} was not reported', what)
            left_behind(what)
            labels.add('in the first half' if at * 2 < size else 'in the second half')
        if case['bad']:
            bad = make(case['data'], case['properties'])
            if case['where'] == 0 or not case['data']:
                bad.properties['zz'] = unwritable(case['bad'])
            elif case['where'] == 1:
                bad[case['data'][-1][0]]['zz'] = unwritable(case['bad'])
            else:
                bad[case['data'][0][0]]['zz'] = (3, unwritable(case['bad']))
            what = 'writing a dataset with ' + case['bad']
            kind, e = attempt(lambda: write(target, bad))
            require(kind == 'raised', '{0} was not reported', what)
            left_behind(what)
            labels.add('unwritable')
        descriptor = lowest_descriptor()
        kind, e = limited(resource.RLIMIT_NOFILE, descriptor, lambda: attempt(lambda: write(target, dataset)))
        require(kind == 'raised', 'a write without a free file descriptor was not reported')
        left_behind('a write without a free file descriptor')
        for missing in (os.path.join(folder, 'none', 'x.json'), os.path.join(reference, 'x.json')):
            kind, e = attempt(lambda: write(missing, dataset))
            require(kind == 'raised', 'writing into something that is no folder was not reported')
        write(target, dataset)
        got = read(path)
        require(content(got) == content(dataset), 'a write after failed ones is read as {0} instead of {1}', short(content(got)), short(content(dataset)))
        with open(path, 'rb') as f, open(reference, 'rb') as g:
            require(json.loads(f.read().decode('utf-8')) == json.loads(g.read().decode('utf-8')), 'a write after failed ones gives another file')
    return size > 60, sorted(labels) + ['over old file' if old is not None else 'new file']


def gen_cut(s):
    return {'data': files.gen_mass_dataset(s), 'properties': files.gen_properties(s), 'at': [s.draw(10 ** 6) for _ in range(30)],
            'plain': s.bool(1, 3)}


def check_cut(case):
    read = segeval.input_linear_mass_json
    with Folder() as folder:
        path = os.path.join(folder, 'x.json')
        dataset = make(case['data'], case['properties'])
        if case['plain']:
            doc = dict(case['properties'], segmentation_type='linear', items={i: dict(cs) for i, cs in case['data']})
            with open(path, 'wb') as f:
                f.write(json.dumps(doc, ensure_ascii=True).encode('ascii'))
        else:
            segeval.output_linear_mass_json(path, dataset)
        with open(path, 'rb') as f:
            whole = f.read()
        size = len(whole.rstrip())
        points = range(size) if size <= 250 else sorted({a % size for a in case['at']} | {0, size - 1, size - 2, size // 2})
        for at in points:
            with open(path, 'wb') as f:
                f.write(whole[:at])
            kind, got = attempt(lambda: read(path))
            require(kind == 'raised' and isinstance(got, DataIOError), 'the first {0} of {1} bytes of a file: {2} {3}', at, size, kind, short(got))
        require(not open_files(folder), 'files left open: {0}', open_files(folder))
    return size > 60, ('every byte' if len(points) == size else 'some bytes', 'written' if not case['plain'] else 'plain')


NOT_INTEGERS = ('x', '1.5', '1,2', '--', '1 2', '0x1', '1e2', 'nan', u'\u00bd', '1-', '.', "'1'")
READERS = ('json', 'tsv', 'positions')


def gen_reads(s):
    return {'reader': s.choice(READERS), 'fault': s.choice(('missing', 'folder', 'unreadable', 'descriptors', 'dangling', 'cell', 'below a file')),
            'name': s.choice(('a.tsv', 'b.json', 'c', u'\u00e9.tsv')), 'cell': s.choice(NOT_INTEGERS),
            'rows': [[c, gen.masses(s, 1, 9)] for c in s.subset(['x', 'y', 'z', 'v'], 3, 4)], 'row': s.draw(4), 'at': s.draw(10)}


def unreadable():
    """A path that can be opened but not read, if there is one."""
    try:
        with open('/proc/self/mem', 'rb') as f:
            f.read(1)
    except OSError as e:
        return '/proc/self/mem' if e.errno == 5 else None
    return None


UNREADABLE = unreadable()


def check_reads(case):
    reader = {'json': segeval.input_linear_mass_json, 'tsv': segeval.input_linear_mass_tsv, 'positions': input_linear_positions_tsv}[case['reader']]
    fault = case['fault']
    with Folder() as folder:
        path = os.path.join(folder, case['name'])
        rows = [[c, [str(x) for x in m]] for c, m in case['rows']]
        if case['reader'] == 'json':
            with io.open(path, 'w', encoding='utf-8') as f:
                f.write(json.dumps({'segmentation_type': 'linear', 'items': {'i': {c: [int(x) for x in m] for c, m in rows}}}))
        else:
            with io.open(path, 'w', encoding='utf-8') as f:
                f.write(u'coder\t1\n' + u''.join(u'\t'.join([c] + m) + u'\n' for c, m in rows))
        good = reader(path)
        require(set(c for cs in good.values() for c in cs) == set(c for c, _ in rows), 'a sound file is read as {0}', short(good))

        def failing():
            return attempt(lambda: reader(path))
        if fault == 'missing':
            path = os.path.join(folder, 'missing.json')
        elif fault == 'folder':
            path = folder
        elif fault == 'below a file':
            path = os.path.join(path, 'x.json')
        elif fault in ('unreadable', 'dangling'):
            if fault == 'unreadable' and UNREADABLE is None:
                return False, ('no unreadable file',)
            path = os.path.join(folder, 'link.json')
            os.symlink(UNREADABLE if fault == 'unreadable' else os.path.join(folder, 'gone'), path)
        elif fault == 'cell':
            if case['reader'] == 'json' or not rows:
                return False, ('no cell',)
            row = rows[case['row'] % len(rows)][1]
            row[case['at'] % len(row)] = case['cell']
            with io.open(path, 'w', encoding='utf-8') as f:
                f.write(u'coder\t1\n' + u''.join(u'\t'.join([c] + m) + u'\n' for c, m in rows))
        if fault == 'descriptors':
            descriptor = lowest_descriptor()
            kind, got = limited(resource.RLIMIT_NOFILE, descriptor, failing)
        else:
            kind, got = failing()
        require(kind == 'raised', 'reading ({0}, {1}) was not refused: {2}', case['reader'], fault, short(got))
        require(not open_files(folder) and not (UNREADABLE and open_files(UNREADABLE)), 'reading ({0}, {1}) left files open', case['reader'], fault)
        path = os.path.join(folder, case['name'])
        if fault != 'cell':
            require(content(reader(path)) == content(good), 'a sound file is read otherwise after a failed read')
    return True, (case['reader'], fault)


def gen_bad_tree(s):
    case = files.gen_tree(s)
    filetype = case['type']
    folders = []

    def walk(entries, path):
        folders.append(path)
        for kind, name, body in entries:
            if kind == 'dir':
                walk(body, path + [name])
    walk(case['tree'], [])
    fault = s.choice(('unreadable', 'dangling', 'cut', 'shape') if filetype == 'json' else ('unreadable', 'dangling', 'cell', 'cell'))
    ext = s.choice(files.EXTENSIONS[filetype])
    return {'type': filetype, 'tree': case['tree'], 'folder': s.choice(folders), 'fault': fault, 'name': s.choice(('bad', 'zz', '0', '_', 'a.b')) + ext,
            'cell': s.choice(NOT_INTEGERS), 'cut': s.draw(100), 'shape': s.draw(len(SHAPES)), 'extend': s.bool(1, 3)}


SHAPES = ('[]', '{}', 'null', '""', '3', '{"segmentation_type": "linear"}', '{"items": {}}', '{"segmentation_type": "tree", "items": {}}',
          '{"segmentation_type": "linear", "items": []}', '{"segmentation_type": "linear", "items": {"i": []}}',
          '{"segmentation_type": "linear", "items": {"i": {"c": 3}}}', 'x', '', '{"segmentation_type": "linear", "items": null}',
          '{"segmentation_type": "linear", "items": {"i": {"c": [1]}}} {}', "{'segmentation_type': 'linear', 'items': {}}")


def check_bad_tree(case):
    load = segeval.load_nested_folders_dict
    filetype = case['type']
    with Folder() as folder:
        root, elsewhere = os.path.join(folder, 'root'), os.path.join(folder, 'elsewhere')
        os.mkdir(root)
        os.mkdir(elsewhere)
        files.write_tree(root, case['tree'], filetype, elsewhere)
        path = os.path.join(*[root] + case['folder'] + [case['name']])
        if os.path.lexists(path) or not os.path.isdir(os.path.dirname(path)):
            return False, ('name taken',)
        fault = case['fault']
        if fault == 'unreadable':
            if UNREADABLE is None:
                return False, ('no unreadable file',)
            os.symlink(UNREADABLE, path)
        elif fault == 'dangling':
            os.symlink(os.path.join(folder, 'gone'), path)
        elif fault == 'cell':
            with io.open(path, 'w', encoding='utf-8') as f:
                f.write(u'coder\t1\nbad1\t2\t3\nbad2\t4\t' + case['cell'] + u'\nbad3\t6\n')
        else:
            text = '{"segmentation_type": "linear", "items": {"bad": {"bad1": [2, 3], "bad2": [5]}}}'
            with open(path, 'w') as f:
                f.write(text[:case['cut'] % len(text)] if fault == 'cut' else SHAPES[case['shape']])
        given = segeval.Dataset({'given': {'g': (1,)}}) if case['extend'] else None
        kind, got = attempt(lambda: load(root, filetype, dataset=given) if case['extend'] else load(root, filetype))
        require(kind == 'raised', 'loading a tree with a bad file ({0}) was not refused: {1}', fault, short(got))
        require(not open_files(folder) and not (UNREADABLE and open_files(UNREADABLE)), 'loading a tree with a bad file ({0}) left files open', fault)
        for where in (os.path.join(folder, 'none'), os.path.join(folder, 'root', 'none')):
            kind, got = attempt(lambda: load(where, filetype))
            require(kind == 'raised', 'loading a folder that does not exist gave {0}', short(got))
        # without it, the tree loads (unless it holds duplicates)
        os.unlink(path)
        kind, got = attempt(lambda: load(root, filetype))
        require(kind == 'returned' or isinstance(got, DataIOError), 'loading the tree without the bad file: {0}', short(got))
    return True, (filetype, fault, 'depth%d' % len(case['folder']), 'extended' if case['extend'] else '')


SUBS = {
    'P32': [Sub('stopped', gen_failing, check_failing, 6000)],
    'P33': [Sub('writes', gen_write, check_write, 4000), Sub('cut', gen_cut, check_cut, 2400), Sub('reads', gen_reads, check_reads, 4000),
            Sub('trees', gen_bad_tree, check_bad_tree, 4000)],
}
