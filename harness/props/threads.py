"""P31: calls made at the same time in several threads."""
from __future__ import division
import os
import shutil
import tempfile
import segeval
from harness import gen, sut, settings
from harness.core import Sub, require, fail, short, same
from harness.interleave import Scheduler, Endless
from harness.pristine import Pristine, Crash
from harness.props import calls
from harness.props.calls import build, files, form, option, perform, snapshot, prepare

OWN = ('matrix', 'matrices')        # reading a cell may add it: every thread has its own


def execute(payload):
    """Forms of all calls by thread; the changed argument, if any; the switches made."""
    case, alone = payload
    folder = tempfile.mkdtemp(prefix='threads-', dir=os.environ.get('VERIF_SCRATCH') or None)
    try:
        files(case['files'], folder)
        shared = [None if spec[0] in OWN else build(spec) for spec in case['objects']]
        before = [snapshot(o) for o in shared]
        where, was = os.getcwd(), settings.now()

        def task(k, steps):
            objects = [build(spec) if spec[0] in OWN else shared[i] for i, spec in enumerate(case['objects'])]

            def place(call):
                if call[0] != 'output':
                    return call
                # every thread writes files of its own
                return [call[0], [['path', 'of%d-%s' % (k, call[1][0][1])]] + call[1][1:], call[2]]
            steps = [place(c) for c in steps]
            return lambda: [perform(c, objects)[1] for c in steps]
        tasks = [task(k, steps) for k, steps in enumerate(case['threads'])]
        if alone:
            forms, switches = [t() for t in tasks], 0
        else:
            try:
                results, switches = Scheduler(case['schedule'], case['again'], case['fine']).run(tasks)
            except Endless:
                return None, 'endless', 0
            forms = [r[1] if r[0] == 'done' else [('raised', r[1])] for r in results]
        changed = [i for i, (x, y) in enumerate(zip(before, [snapshot(o) for o in shared])) if x != y]
        setting = settings.changed(was)
        if setting is not None:
            os.chdir(where)
            changed = list(setting)
        return forms, changed, switches
    finally:
        shutil.rmtree(folder, ignore_errors=True)


pristine = Pristine(execute, prepare)


def check_threads(case):
    try:
        together, changed, switches = pristine((case, False))
    except Crash:
        fail('the process died during the calls {0}', short(case['threads']))
    require(together is not None, 'the calls {0} wait for each other forever', short(case['threads']))
    alone, _, _ = pristine((case, True))
    for k, (steps, x, y) in enumerate(zip(case['threads'], together, alone)):
        require(len(x) == len(y), 'thread {0} ended with {1}', k, short(x))
        for call, f, want in zip(steps, x, y):
            require(same(f, want), 'call {0} in thread {1} of {2} gives {3}, alone {4}', short(call, 500), k, len(case['threads']),
                    short(f), short(want))
    require(not changed, 'shared arguments {0} changed', changed)
    return switches > 1, {c[0] for steps in case['threads'] for c in steps} | {
        'threads%d' % len(case['threads']), 'fine' if case['fine'] else 'lines', 'switches>%d' % (10 ** (len(str(switches)) - 1)) if switches else ''}


def gen_schedule(s):
    out = []
    for _ in range(s.int(1, 12)):
        scale = s.choice((3, 12, 60, 300, 1500))
        out.append([1 + s.draw(scale), 1 + s.draw(2)])
    return out


def gen_threads(s):
    threads = []
    many = s.weighted([(5, 2), (2, 3)])
    if s.bool():
        # calls that have much in common
        case = calls.gen_alike(s)
        pool = [step[1] for step in case['steps']]
        for _ in range(many):
            threads.append([s.choice(pool) for _ in range(s.weighted([(4, 1), (2, 2), (1, 3)]))])
    else:
        case = calls.gen_history(s)
        pool = []
        for _ in range(many):
            mine = []
            for _ in range(s.weighted([(4, 1), (2, 2), (1, 3)])):
                c = calls.vary(s, s.choice(pool), case['objects']) if pool and s.bool() else calls.gen_call(s, case['objects'])
                mine.append(c)
                pool.append(c)
            threads.append(mine)
    # the larger samples take long
    objects = [['sample', calls.SAMPLES[len(o[1]) % 2]] if o[0] == 'sample' else o for o in case['objects']]
    return {'objects': objects, 'files': case['files'], 'threads': threads, 'schedule': gen_schedule(s), 'again': s.bool(2, 3), 'fine': s.bool(1, 3)}


def gen_files(s):
    """Threads that read and write files."""
    out, readers = [], []
    for k in range(s.int(2, 4)):
        data = gen.full_dataset(s, 1, 12, 1, 3, 2)
        folder = s.choice(('tree', 'tree/sub', 'wood', 'wood/b/c'))
        if s.bool():
            out.append(['%s/f%d.json' % (folder, k), data, {'note': [k]}])
            readers.append(['input_linear_mass_json', [['path', out[-1][0]]], {}])
        else:
            sep = s.choice(('\t', ',', ';'))
            out.append(['%s/f%d.tsv' % (folder, k), data, {'delimiter': sep}])
            readers.append(['input_linear_mass_tsv', [['path', out[-1][0]]], {} if sep == '\t' else {'delimiter': sep}])
        readers.append(['load_nested_folders_dict', [['path', folder], ['value', s.choice(('json', 'json', 'tsv'))]], {}])
    objects = [['dataset', gen.full_dataset(s, 1, 12, 1, 3, 2), 'mass', s.bool()] for _ in range(2)]
    writers = [['output', [['path', name], s.draw(2)], {}] for name in ('out1.json', 'out2.json')]
    threads = [[s.choice(readers if s.bool(2, 3) else writers) for _ in range(s.weighted([(4, 1), (2, 2)]))] for _ in range(s.int(2, 3))]
    return {'objects': objects, 'files': out, 'threads': threads, 'schedule': gen_schedule(s), 'again': s.bool(2, 3), 'fine': s.bool(1, 3)}


# -- calls made by functions the caller supplies ------------------------------------
def execute_nested(payload):
    """Forms of the outer call and of every inner call; what changed."""
    case, alone = payload
    folder = tempfile.mkdtemp(prefix='nested-', dir=os.environ.get('VERIF_SCRATCH') or None)
    try:
        files(case['files'], folder)
        objects = [build(spec) for spec in case['objects']]
        before = [snapshot(o) for o in objects]
        inner, depth = [], [0]

        def within():
            if depth[0] < case['depth'] and len(inner) < 12 and not alone:
                depth[0] += 1
                try:
                    inner.append(call(case['inner'])[1])
                finally:
                    depth[0] -= 1

        def wrap(fn, first):
            def supplied(*args, **kwargs):
                if first:
                    within()
                value = fn(*args, **kwargs)
                if not first:
                    within()
                return value
            return supplied

        def call(c):
            fn, args, kw = c
            first = case['first']
            kw = {k: option(k, v) for k, v in kw.items()}
            if fn in calls.PAIR[:4] + calls.AGREEMENT:
                kw['weight'] = tuple(wrap(w, first) if case['at'] >> k & 1 else w
                                     for k, w in enumerate(kw.get('weight', sut.weights(''))))
            if fn in calls.AGREEMENT and case['at'] & 8:
                kw['fnc_compare'] = wrap(kw.get('fnc_compare', segeval.boundary_similarity), first)
            if fn in calls.WINDOW or fn == 'compute_window_size':
                kw['fnc_round'] = wrap(kw.get('fnc_round', round), first)
            real = [objects[a] if isinstance(a, int) else build(a) for a in args]
            try:
                return None, form(getattr(segeval, fn)(*real, **kw))
            except Exception as e:
                return None, ('raised', type(e).__name__)
        outer = call(case['outer'])[1]
        if alone:
            inner = [call(case['inner'])[1]]
        return outer, inner, [i for i, (x, y) in enumerate(zip(before, [snapshot(o) for o in objects])) if x != y]
    finally:
        shutil.rmtree(folder, ignore_errors=True)


pristine_nested = Pristine(execute_nested, prepare)


def check_nested(case):
    try:
        outer, inner, changed = pristine_nested((case, False))
    except Crash:
        fail('the process died during the calls {0}, {1}', short(case['outer']), short(case['inner']))
    want, (want_inner,), _ = pristine_nested((case, True))
    require(same(outer, want), 'call {0} gives {1} when functions it is given call {2}, else {3}', short(case['outer'], 400), short(outer),
            short(case['inner'], 400), short(want))
    for f in inner:
        require(same(f, want_inner), 'call {0} from a function given to {1} gives {2}, alone {3}', short(case['inner'], 400),
                short(case['outer'], 400), short(f), short(want_inner))
    require(not changed, 'arguments {0} changed', changed)
    return len(inner) > 0, (case['outer'][0], 'in ' + case['inner'][0], 'inner%d' % min(4, len(inner)), 'depth%d' % case['depth'])


OUTER = calls.PAIR + calls.AGREEMENT + ('compute_window_size',)


def gen_nested(s):
    case = calls.gen_alike(s) if s.bool(2, 3) else calls.gen_history(s)
    pool = [step[1] for step in case['steps'] if step[0] == 'call' and (step[1][0] in OUTER or step[1][0] not in ('output', '+', 'copy'))]
    outers = [c for c in pool if c[0] in OUTER]
    while not outers:
        case = calls.gen_history(s)
        pool = [calls.gen_call(s, case['objects']) for _ in range(8)]
        pool = [c for c in pool if c[0] not in ('output', '+', 'copy')]
        outers = [c for c in pool if c[0] in OUTER]
    objects = [['sample', calls.SAMPLES[len(o[1]) % 2]] if o[0] == 'sample' else o for o in case['objects']]
    return {'objects': objects, 'files': case['files'], 'outer': s.choice(outers), 'inner': s.choice(pool), 'at': 1 + s.draw(15),
            'first': s.bool(), 'depth': s.weighted([(4, 1), (1, 2)])}


SUBS = {'P31': [Sub('schedules', gen_threads, check_threads, 3000), Sub('files', gen_files, check_threads, 1200), Sub('nested', gen_nested, check_nested, 4000)]}
