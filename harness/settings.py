"""Settings of the process that no call of the package may leave changed."""
import csv
import gc
import json
import locale
import os
import random
import signal
import sys
import warnings
from decimal import getcontext


def now():
    context = getcontext()
    mask = os.umask(0o22)
    os.umask(mask)
    return {
        'working directory': os.getcwd(),
        'recursion limit': sys.getrecursionlimit(),
        'decimal context': (context.prec, context.rounding, context.Emin, context.Emax, context.capitals, context.clamp,
                            tuple(sorted(str(k) for k, v in context.traps.items() if v))),
        'random state': hash(random.getstate()),
        'environment': hash(tuple(sorted(os.environ.items()))),
        'umask': mask,
        'csv field size limit': csv.field_size_limit(),
        'csv dialects': tuple(sorted(csv.list_dialects())),
        'locale': locale.setlocale(locale.LC_ALL),
        'garbage collection': gc.isenabled(),
        'module search path': tuple(sys.path),
        'standard streams': (id(sys.stdin), id(sys.stdout), id(sys.stderr)),
        'signal handlers': tuple(id(signal.getsignal(n)) for n in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGPIPE)),
        'warning filters': len(warnings.filters),
        'json': (id(json.dumps), id(json.loads), id(json.JSONEncoder.default), id(json.encoder.FLOAT_REPR)
                 if hasattr(json.encoder, 'FLOAT_REPR') else 0),
    }


def changed(before):
    """The first setting that differs, with both values; None if there is none."""
    after = now()
    for name in sorted(before):
        if before[name] != after[name]:
            return name, before[name], after[name]
    return None


ROUNDINGS = ('ROUND_HALF_EVEN', 'ROUND_HALF_UP', 'ROUND_DOWN', 'ROUND_CEILING', 'ROUND_FLOOR')


def generate(s):
    """A setting as a program using the package may have made it."""
    kind = s.weighted([(4, 'precision'), (2, 'rounding'), (2, 'random'), (1, 'recursion'), (1, 'cells'), (1, 'dialect'), (1, 'environment'),
                       (1, 'umask'), (1, 'collection')])
    if kind == 'precision':
        return [kind, s.choice((28, 30, 40, 60, 100))]
    if kind == 'rounding':
        return [kind, s.choice(ROUNDINGS)]
    return [kind, s.draw(3)]


def put(setting):
    kind, value = setting
    if kind == 'precision':
        getcontext().prec = value
    elif kind == 'rounding':
        getcontext().rounding = value
    elif kind == 'random':
        random.seed(value)
    elif kind == 'recursion':
        sys.setrecursionlimit(2000 + 500 * value)
    elif kind == 'cells':
        csv.field_size_limit(140000 + value)
    elif kind == 'dialect':
        csv.register_dialect('mine%d' % value, delimiter=';')
    elif kind == 'environment':
        os.environ['SEGEVAL_HOME'] = str(value)
    elif kind == 'umask':
        os.umask((0o22, 0o27, 0o77)[value])
    elif kind == 'collection':
        if value:
            gc.disable()
        else:
            gc.enable()
