"""P21 JSON round trip, P22 rejected documents, P23 TSV files, P24 directory trees."""
from __future__ import division
import base64
import copy
import csv
import io
import itertools
import json
import os
import shutil
import tempfile
import segeval
import segeval.data
from segeval.data import DataIOError
from segeval.data.tsv import input_linear_positions_tsv
from harness import gen, sut, dictionary
from harness.core import Sub, require, fail, short, raises, num, agree

SCRATCH = os.environ.get('VERIF_SCRATCH') or None


class Folder(object):
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix='case-', dir=SCRATCH)
        return self.path

    def __exit__(self, *args):
        shutil.rmtree(self.path, ignore_errors=True)


def content(dataset):
    return {i: {c: list(m) for c, m in cs.items()} for i, cs in dataset.items()}


def typed(x):
    """JSON value with the types that JSON distinguishes."""
    if isinstance(x, dict):
        return ('object', sorted((k, typed(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return ('array', [typed(v) for v in x])
    if isinstance(x, float) and x != x:
        return ('float', 'nan')
    return (type(x).__name__, x)


def open_files(path):
    """Descriptors of this process that refer to a file at or below path."""
    out = []
    for fd in os.listdir('/proc/self/fd'):
        try:
            target = os.readlink('/proc/self/fd/' + fd)
        except OSError:
            continue
        if target.startswith(path):
            out.append(target)
    return out


def coders_known(dataset, what):
    actual = {c for cs in dataset.values() for c in cs}
    require(set(dataset.coders) == actual, '{0}: coders are {1} instead of {2}', what, short(sorted(dataset.coders, key=repr)),
            short(sorted(actual, key=repr)))


# -- P21 ------------------------------------------------------------------
TEXTS = ['', 'a', 'b', u'\u00e9', u'\u4e2d', u'\U0001f600', 'a b', '"', '\\', '\n', '\t', u'\u2028', 'a,b', '/', "'", '\x00',
         '0', '1', '10', '2', '-1', 'null', 'true', 'items2', 'Items', 'type', '\x7f', u'\ufeff', u'\ud800', '\r', '\r\n']


def text(s):
    kind = s.weighted([(5, 0), (3, 1), (1, 2)])
    if kind == 0:
        return gen.name(s, TEXTS)
    if kind == 1:
        return s.choice(TEXTS)
    return ''.join(s.choice(TEXTS) for _ in range(s.int(1, 4)))


def texts(s, count):
    out = []
    while len(out) < count:
        t = text(s)
        while t in out:
            t += str(len(out))
        out.append(t)
    return out


def json_value(s, depth=2):
    kind = s.weighted([(3, 'text'), (2, 'int'), (1, 'null'), (1, 'bool'), (1, 'float'), (1 if depth else 0, 'list'),
                       (1 if depth else 0, 'object')])
    if kind == 'text':
        return text(s)
    if kind == 'int':
        return s.choice((0, 1, -1, 2 ** 31, 2 ** 63, 10 ** 30)) if s.bool() else s.int(-9, 300)
    if kind == 'null':
        return None
    if kind == 'bool':
        return s.bool()
    if kind == 'float':
        return s.choice((0.5, -1.25, 1e300, 1e-7, 0.1, 3.0))
    if kind == 'list':
        return [json_value(s, depth - 1) for _ in range(s.draw(4))]
    return {k: json_value(s, depth - 1) for k in texts(s, s.draw(4))}


def gen_mass_dataset(s, full=False):
    out = []
    if gen.notable(s, False, 3000, 12) or s.bool(1, 60):
        # many items, many coders or long texts
        kind = s.draw(3)
        n = gen.notable(s, s.choice((40, 130, 300)), 3000, 2)
        if kind == 0:
            silent = None if full else s.draw(2 * n)     # an item nobody has coded
            return [['item %d' % i, [] if i == silent else [['c', [1 + i % 5, 2]], ['d', [2, 1 + i % 5]]]] for i in range(n)]
        if kind == 1:
            return [['item', [['coder %d' % i, [1 + i % 5, 7 - i % 5]] for i in range(min(n, 30) if full else n)]]]
        return [['item', [['c', [1 + i % 3 for i in range(n * 10)]], ['d', [n * 20]]]]]
    coders = texts(s, s.int(2 if full else 0, 5))
    for item in texts(s, s.int(1, 4) if full else s.draw(5)):
        n = gen.size(s, 1, 60)
        group = coders if full else s.subset(coders, 3, 4)
        if s.bool(1, 20) and not full:
            masses = [[s.choice((10 ** 18, 10 ** 30, 2 ** 63, 0, 1)) for _ in range(s.int(0, 3))] for _ in group]
        else:
            masses = [m for _, m in gen.item_codings(s, n, group)]
        out.append([item, [[c, m] for c, m in zip(group, masses)]])
    return out


def gen_properties(s):
    keys = [k for k in texts(s, s.weighted([(3, 0), (2, 1), (2, 3)])) if k not in ('items', 'segmentation_type')]
    return {k: json_value(s) for k in keys}


def gen_writes(s):
    writes = []
    full = s.bool()
    for _ in range(s.weighted([(3, 1), (2, 2), (1, 3)])):
        writes.append({'data': gen_mass_dataset(s, full), 'properties': gen_properties(s), 'listy': s.bool(1, 3),
                       'target': s.weighted([(3, 0), (2, 1), (2, 'dir'), (1, 'same dir')]), 'reload': s.bool(1, 4),
                       'slash': s.bool(1, 3), 'relative': s.bool(1, 4)})
    return {'writes': writes, 'name': s.choice(('out.json', 'x', u'\u00e9.json', 'a b.JSON', '.json', 'data.txt'))}


def check_writes(case):
    labels = set()
    with Folder() as folder:
        sub = os.path.join(folder, 'dir')
        os.mkdir(sub)
        with open(os.path.join(folder, 'bystander.json'), 'w') as f:
            f.write('untouched')
        expected = {}           # path -> (items, properties)
        for w in case['writes']:
            wrap = list if w['listy'] else tuple
            items = {i: {c: list(m) for c, m in cs} for i, cs in w['data']}
            raw = {i: {c: wrap(m) for c, m in cs} for i, cs in w['data']}
            properties = copy.deepcopy(w['properties'])
            dataset = segeval.Dataset(raw, properties=copy.deepcopy(properties))
            if w['reload'] and expected:
                # write again what was read from another file
                path = sorted(expected)[0]
                dataset = segeval.input_linear_mass_json(path)
                items, properties = copy.deepcopy(expected[path])
                labels.add('written again')
            target = w['target']
            if target in ('dir', 'same dir'):
                argument = sub if target == 'dir' else folder
                path = os.path.join(argument, 'output.json')
            else:
                argument = path = os.path.join(folder, case['name'] if target == 0 else 'other.json')
            labels.add('replaced' if path in expected else 'created')
            labels.add('directory' if argument != path else 'file')
            before = (typed(content(dataset)), typed(dict(dataset.properties)), set(dataset.coders), set(dataset.boundary_types),
                      dataset.boundary_format)
            if argument != path and w.get('slash'):
                argument += '/'
            segeval.output_linear_mass_json(os.path.relpath(argument) if w.get('relative') else argument, dataset)
            after = (typed(content(dataset)), typed(dict(dataset.properties)), set(dataset.coders), set(dataset.boundary_types),
                     dataset.boundary_format)
            require(before == after, 'writing changed the dataset from {0} to {1}', short(before), short(after))
            expected[path] = (items, properties)
            for p, (its, props) in expected.items():
                loaded = segeval.input_linear_mass_json(p)
                require(typed(content(loaded)) == typed(its), 'items read back are {0} instead of {1}', short(content(loaded)), short(its))
                want = dict(props, segmentation_type='linear')
                require(typed(dict(loaded.properties)) == typed(want), 'properties read back are {0} instead of {1}',
                        short(dict(loaded.properties)), short(want))
                coders_known(loaded, 'read back')
                require(loaded.boundary_format == segeval.BoundaryFormat.mass, 'boundary format read back is {0}',
                        short(loaded.boundary_format))
                require(set(loaded.boundary_types) == {1}, 'boundary types read back are {0}', short(loaded.boundary_types))
            same_metrics(dataset, segeval.input_linear_mass_json(path), labels)
        present = {os.path.join(d, n) for d, _, names in os.walk(folder) for n in names}
        require(present == set(expected) | {os.path.join(folder, 'bystander.json')}, 'files present are {0}, written {1}',
                short(sorted(present)), short(sorted(expected)))
        with open(os.path.join(folder, 'bystander.json')) as f:
            require(f.read() == 'untouched', 'writing changed another file')
        leaks = open_files(folder)
        require(not leaks, 'files left open: {0}', leaks)
    return any(w['data'] for w in case['writes']), sorted(labels) + [
        'properties' if any(w['properties'] for w in case['writes']) else '', 'writes%d' % len(case['writes'])]


def same_metrics(one, two, labels):
    counts = {len(cs) for cs in one.values()}
    if sum(len(cs) for cs in one.values()) > 24:
        return
    if any(sum(m) > 200 or not m or 0 in m for cs in one.values() for m in cs.values()) or not one or min(counts) == 0:
        return
    if any(len({sum(m) for m in cs.values()}) > 1 for cs in one.values()):
        return
    labels.add('compared')
    if all(',' not in t for i, cs in one.items() for t in [i] + list(cs)):
        x, y = segeval.pk(one), segeval.pk(two)
        agree(x, y, 'Pk of the dataset read back')
        x, y = segeval.boundary_similarity(one, permuted=True), segeval.boundary_similarity(two, permuted=True)
        agree(x, y, 'boundary similarity of the dataset read back')
    if len(counts) == 1 and min(counts) >= 2 and all(set(cs) == set(list(one.values())[0]) for cs in one.values()):
        labels.add('agreement')
        agree(segeval.actual_agreement_linear(one), segeval.actual_agreement_linear(two), 'agreement of the dataset read back')
        if any(sum(m) > 1 for cs in one.values() for m in cs.values()):
            for fn in (segeval.fleiss_pi_linear, segeval.fleiss_kappa_linear):
                x, y = fn(one, return_parts=True), fn(two, return_parts=True)
                agree(x, y, fn.__name__ + ' of the dataset read back')


# -- P22 ------------------------------------------------------------------
PIECES = ['{', '}', '[', ']', ',', ':', '"', '"items"', '"segmentation_type"', '"linear"', '1', '-1', '0.5', '1e9', 'null', 'true',
          'NaN', 'Infinity', ' ', '\n', '\\u0041', '\\', '"a"', '"', u'\ufeff', u'\u00e9', '\x00', '{"items":', '"coder"', '[1,2]']


def gen_masses_json(s):
    kind = s.weighted([(8, 'list'), (1, 'number'), (1, 'text'), (1, 'null'), (1, 'object'), (1, 'nested'), (1, 'bool')])
    if kind == 'list':
        return [s.int(1, 9) for _ in range(s.draw(5))]
    if kind == 'nested':
        return [json_value(s, 1) for _ in range(s.draw(4))]
    return {'number': s.choice((0, 5, 1.5)), 'text': s.choice(('', 'ab', '[1]')), 'null': None, 'object': {'a': [1]} if s.bool() else {},
            'bool': s.bool()}[kind]


def gen_items_json(s):
    kind = s.weighted([(10, 'object'), (1, 'list'), (1, 'null'), (1, 'number'), (1, 'text'), (1, 'empty'), (1, 'pairs')])
    if kind == 'object':
        out = {}
        for i in texts(s, s.int(1, 3)):
            k = s.weighted([(12, 'object'), (1, 'list'), (1, 'null'), (1, 'number'), (1, 'text')])
            if k == 'object':
                out[i] = {c: gen_masses_json(s) for c in texts(s, s.draw(4))}
            else:
                out[i] = {'list': s.choice(([], [1, 2], [['a', [1]]])), 'null': None, 'number': 3, 'text': s.choice(('', 'ab'))}[k]
        return out
    return {'list': s.choice(([], [1], [{'a': {'b': [1]}}])), 'null': None, 'number': s.choice((0, 1, 1.5)), 'text': s.choice(('', 'ab')),
            'empty': {}, 'pairs': [['a', {'b': [1]}]]}[kind]


def gen_document(s):
    doc = {}
    if s.bool(9, 10):
        doc['segmentation_type'] = s.weighted([(8, 'linear'), (1, 'Linear'), (1, ''), (1, 'hierarchical'), (1, None), (1, 1),
                                               (1, ['linear']), (1, 'linear '), (1, {}), (1, True), (1, 'lin')])
    if s.bool(9, 10):
        doc['items'] = gen_items_json(s)
    for k in texts(s, s.weighted([(2, 0), (2, 1), (1, 3)])):
        doc.setdefault(k, json_value(s))
    if s.bool(1, 6):
        doc = s.choice(([doc], [], None, 1, 'linear', doc.get('items'), {}, True, {'data': doc}))
    return doc


TAILS = [b'\x00', b'\x1a', b'\xef\xbb\xbf', b'\x0b', b'\x0c', b'\xc2\xa0', b'\n', b'}', b',', b'null', b'\x85', b'//', b'#', b';']


def gen_file(s):
    kind = s.weighted([(7, 'document'), (2, 'mutated'), (1, 'bytes'), (1, 'pieces')])
    if kind == 'bytes':
        data = bytes(s.draw(256) for _ in range(s.draw(40)))
    elif kind == 'pieces':
        data = ''.join(s.choice(PIECES) for _ in range(s.draw(20))).encode('utf-8')
    else:
        doc = gen_document(s)
        padding = 0
        if (s.bool(1, 60) or gen.notable(s, False, 10 ** 6, 20)) and isinstance(doc, dict):
            # long documents: more than one block is read
            size = gen.notable(s, s.choice((1000, 4096, 8192, 65536, 70000, 200000)), 10 ** 6, 2) + s.draw(3)
            how = s.draw(4)
            if how == 0:
                doc['padding'] = 'x' * size
            elif how == 1:
                doc['0'] = 'x' * size
            elif how == 2 and isinstance(doc.get('items'), dict):
                doc['items']['many'] = {'c%d' % i: [1, i] for i in range(size // 20)}
            else:
                padding = size
        style = s.draw(3)
        t = ' ' * padding + json.dumps(doc, indent=4 if style == 1 else None, sort_keys=style == 1, ensure_ascii=style != 2)
        data = t.encode('utf-8', 'surrogatepass')
        if kind == 'mutated':
            b = bytearray(data)
            for _ in range(s.int(1, 3)):
                act = s.weighted([(2, 'cut'), (2, 'byte'), (1, 'drop'), (1, 'insert'), (1, 'twice'), (1, 'prefix'), (1, 'digit'), (1, 'tail')])
                at = s.draw(len(b) + 1)
                if act == 'tail':
                    b += s.choice(TAILS) * s.int(1, 3)
                elif act == 'cut':
                    b = b[:at]
                elif act == 'byte' and b:
                    b[at % len(b)] = s.draw(256)
                elif act == 'drop' and b:
                    del b[at % len(b)]
                elif act == 'insert':
                    b[at:at] = s.choice(PIECES).encode('utf-8')
                elif act == 'twice':
                    b += b if len(b) < 2000 else b''
                elif act == 'prefix':
                    b[:0] = s.choice((b'\xef\xbb\xbf', b' ', b'\n', b'//', b'\xff\xfe', b'\x00'))
                elif b:
                    b[at % len(b)] = s.choice(b'0123456789"{}[]:,')
            data = bytes(b)
    return {'kind': kind, 'bytes': base64.b64encode(data).decode('ascii')}


def stated(data):
    """(items, properties) a file states, or None if it is to be rejected."""
    try:
        # text files use universal newlines; no string can hold a raw newline
        doc = json.loads(data.decode('utf-8').replace('\r\n', '\n').replace('\r', '\n'))
    except (ValueError, RecursionError):
        return None
    if not isinstance(doc, dict) or 'segmentation_type' not in doc or 'items' not in doc:
        return None
    t = doc['segmentation_type']
    if not isinstance(t, str) or t != 'linear':
        return None
    items = doc['items']
    if not isinstance(items, dict):
        return None
    for cs in items.values():
        if not isinstance(cs, dict) or not all(isinstance(m, list) for m in cs.values()):
            return None
    return items, {k: v for k, v in doc.items() if k != 'items'}


def check_file(case):
    data = base64.b64decode(case['bytes'])
    want = stated(data)
    with Folder() as folder:
        path = os.path.join(folder, 'file.json')
        with open(path, 'wb') as f:
            f.write(data)
        if want is None:
            raises(DataIOError, lambda: segeval.input_linear_mass_json(path), 'reading {0}'.format(short(data)))
        else:
            got = segeval.input_linear_mass_json(path)
            items, properties = want
            require(typed(content(got)) == typed(items), 'reading {0} gave codings {1}', short(data), short(content(got)))
            require(typed(dict(got.properties)) == typed(properties), 'reading {0} gave properties {1}', short(data),
                    short(dict(got.properties)))
            coders_known(got, 'reading ' + short(data))
        leaks = open_files(folder)
        require(not leaks, 'reading {0} left the file open', short(data))
        with open(path, 'rb') as f:
            require(f.read() == data, 'reading changed the file')
    return True, (case['kind'], 'rejected' if want is None else 'accepted')


# -- P23 -----------------------------------------------------------------------
DELIMITERS = ['\t', ',', ';', '|', ' ']
TSV_NAMES = ['a', 'b', 'c', 'coder 1', '1', '42', u'\u00e9', u'\u4e2d\u6587', 'x,y', 'x;y', 'x|y', 'x\ty', 'q"q', "it's", ' a', 'a ',
             '', '-', '#c', '0', 'coder', "'a'", 'None', u'\U0001f600', '""', '\\', u'\u00a0', '=1', 'x\ny', 'x\n', 'x' * 300]
STEMS = ['item', 'a.b', 'x', u'\u00e9', 'two words', 'A', '1', 'a,b', 'data.tsv', '...', 'x.y.z', 'coder', '-', ' ']


def gen_rows(s, names, positions=False):
    rows = []
    for c in names:
        if s.bool(1, 25):
            # a coder who coded nothing
            rows.append([c, []])
        elif positions:
            m = gen.masses(s, 1, 30)
            labels = s.shuffled(range(1, len(m) + 1)) if s.bool(1, 3) else list(range(1, len(m) + 1))
            if s.bool(1, 5):
                labels = [i % 2 for i in range(len(m))]
            rows.append([c, [l for k, l in zip(m, labels) for _ in range(k)]])
        else:
            m = gen.masses(s, 1, 60)
            if s.bool(1, 12):
                m = [s.choice((1000, 10 ** 18 + 1, 12345, 2 ** 53 + 1, 2 ** 31, 256, 257, 10 ** 30 + 7)) + s.draw(3) for _ in range(s.int(1, 3))]
            if gen.notable(s, False, 70000, 30) or s.bool(1, 150):
                m = [1 + i % s.int(1, 7) for i in range(gen.notable(s, s.choice((256, 257, 1000, 4097, 30000)), 70000, 2))]
            rows.append([c, m])
    return rows


# texts that look like another delimiter, quoting or a comment
HEADERS = ['a,b', 'a;b', 'a|b', 'a b c', 'a:b', 'sep=,', '#', '# x', '"q"', "'", '', ' ', 'masses', 'position', '5', '-1', '1.5', ',', ';;']


def gen_tsv(s):
    names = []
    for _ in range(s.weighted([(1, 0), (6, 3), (2, 8)]) and s.int(1, 8)):
        n = s.choice(TSV_NAMES) if s.bool(2, 3) else gen.name(s)
        while n in names:
            n += str(len(names))
        names.append(n)
    if gen.notable(s, False, 5000, 30) or s.bool(1, 150):
        names += ['row %d' % i for i in range(gen.notable(s, s.choice((60, 257, 1025)), 5000, 2))]
    positions = s.bool(1, 4)
    rows = gen_rows(s, names, positions)
    d = s.choice(DELIMITERS)
    width = s.draw(8)
    header = s.weighted([(3, ['coder'] + [str(i) for i in range(1, width)]), (1, ['']), (1, ['x'] * (width + 1)),
                         (1, [names[0] if names else 'a', '3', '4']), (1, ['1', '2', '3']), (1, ['coder', 'a b', u'\u00e9']),
                         (1, [s.choice(HEADERS) for _ in range(s.int(1, 4))])])
    return {'rows': rows, 'positions': positions, 'delimiter': d, 'header': header, 'eol': s.choice(('\n', '\n', '\r\n', '\r')),
            'quoting': s.weighted([(3, 'minimal'), (1, 'all'), (1, 'some')]), 'final': s.weighted([(3, 1), (2, 0), (1, 2)]),
            'blank': sorted({s.draw(len(rows) + 1) for _ in range(s.weighted([(3, 0), (1, 1), (1, 2)]))}),
            'name': s.choice(STEMS) + s.choice(('.tsv', '.csv', '.txt', '.TSV', '', '.tar.gz')),
            'spaces': s.weighted([(13, 0), (1, 1), (1, 2), (1, 3)]), 'keyword': s.bool()}


def field(t, quoting, delimiter, k=0):
    quote = quoting == 'all' or delimiter in t or '"' in t or '\n' in t or (quoting == 'some' and k % 2 == 0)
    return '"' + t.replace('"', '""') + '"' if quote else t


def tsv_text(case):
    d, q = case['delimiter'], case['quoting']
    header = [field(h, q, d, k) for k, h in enumerate(case['header'])]
    if header == ['']:
        header = ['""']
    lines = [d.join(header)]
    for k, (c, m) in enumerate(case['rows']):
        if k in case['blank']:
            lines.append('')
        cells = [(' %d ' % v if case['spaces'] == 1 else '+%d' % v if case['spaces'] == 2 else '0%d' % v if case['spaces'] == 3 else str(v))
                 for v in m]
        if not c and not cells:
            lines.append('""')
            continue
        lines.append(d.join([field(c, q, d, k)] + [field(v, q, d, j) for j, v in enumerate(cells)]))
    if len(case['rows']) in case['blank']:
        lines.append('')
    return case['eol'].join(lines) + case['eol'] * case['final']


def expected_masses(case):
    if not case['positions']:
        return {c: list(m) for c, m in case['rows']}
    return {c: [len(list(g)) for _, g in itertools.groupby(m)] for c, m in case['rows']}


def read_tsv(case, path):
    fn = input_linear_positions_tsv if case['positions'] else segeval.input_linear_mass_tsv
    if case['delimiter'] == '\t' and not case['keyword']:
        return fn(path)
    if case['keyword']:
        return fn(path, delimiter=case['delimiter'])
    return fn(path, case['delimiter'])


def stem(name):
    """Base name without its last extension (a leading dot begins no extension)."""
    cut = name.rfind('.')
    return name[:cut] if cut > 0 and name[:cut].strip('.') else name


def check_tsv(case):
    t = tsv_text(case)
    with Folder() as folder:
        path = os.path.join(folder, case['name'])
        with open(path, 'wb') as f:
            f.write(t.encode('utf-8'))
        got = read_tsv(case, path)
        want = {stem(case['name']): expected_masses(case)}
        require(content(got) == want, 'reading {0} (file {1!r}) gave {2} instead of {3}', short(t), case['name'],
                short(content(got)), short(want))
        require(all(isinstance(v, int) for m in list(content(got).values())[0].values() for v in m), 'masses are not integers')
        coders_known(got, 'reading ' + short(t))
        require(got.boundary_format == segeval.BoundaryFormat.mass, 'boundary format is {0}', short(got.boundary_format))
        leaks = open_files(folder)
        require(not leaks, 'reading left the file open')
        again = read_tsv(case, path)
        require(content(again) == want, 'reading the same file again gave {0}', short(content(again)))
    return bool(case['rows']), ('positions' if case['positions'] else 'masses', 'delimiter %r' % case['delimiter'],
                                'quoting ' + case['quoting'], {'\r\n': 'CRLF', '\n': 'LF', '\r': 'CR'}[case['eol']],
                                'blank' if case['blank'] or case['final'] > 1 else '', 'no final newline' if not case['final'] else '',
                                'rows%d' % min(4, len(case['rows'])))


# -- P24 -------------------------------------------------------------------------
EXTENSIONS = {'json': ['.json', '.jsn', '.JSON', '.Json', '.JSN', '.jSn'], 'tsv': ['.tsv', '.csv', '.TSV', '.Tsv', '.CSV', '.cSv']}
OTHER = ['.txt', '', '.json.bak', '.tsv~', '.xml', '.ejson', '.jso', '.jsonx', '.tsvx', '.ts', '.py', '.']
DIRS = ['d', 'e', 'ch1', 'coder', 'x.json', 'x.tsv', 'a,b', u'\u00e9', ' ', 'D', '.hidden', 'items', 'json', '1', '[1]', 'a*', '?',
        '~', '$HOME', '%41', '{a}', 'C:', 'CVS', '__pycache__', 'a' * 200]
FILES = ['a', 'b', 'c', 'item', 'a.b', u'\u00e9', 'x y', '.hidden', 'A', '1', 'output', 'a,b', '[a]', '*', '#a#', '~a',
         'x' * 200]


def new_names():
    """Texts the sources mention that could name a file."""
    known = [e for group in EXTENSIONS.values() for e in group]
    return [x for x in dictionary.NEW_STRINGS if '/' not in x and '\0' not in x and x not in ('', '.', '..') and
            os.path.splitext(x)[1].lower() not in known]


def gen_folder(s, filetype, depth, coders, state):
    entries = []
    used = set()
    for _ in range(s.weighted([(1, 0), (5, 1), (4, 2), (2, 4), (1, 12)])):
        kind = s.weighted([(6, 'data'), (2, 'other type'), (2, 'other')])
        stem_ = s.choice(FILES + new_names())
        if kind == 'data':
            name = stem_ + s.choice(EXTENSIONS[filetype])
        elif kind == 'other type':
            name = stem_ + s.choice(EXTENSIONS['tsv' if filetype == 'json' else 'json'])
        else:
            name = stem_ + s.choice(OTHER)
        if name in used or name in ('.', '..'):
            continue
        used.add(name)
        if kind == 'data':
            # mostly coders not used before, so that most trees are free of duplicates
            k = s.int(1, 3)
            if s.bool(7, 8):
                group = ['%s%d' % (coders[(state[0] + j) % len(coders)], state[0]) for j in range(k)]
                state[0] += k
            else:
                group = coders[:k]
            if filetype == 'json':
                items = s.subset(['a', 'b', 'item', u'\u00e9', ''], 1, 2)
                body = [[i, [[c, gen.masses(s, 1, 9)] for c in group]] for i in items]
            else:
                body = [[None, [[c, gen.masses(s, 1, 9)] for c in group]]]
            entries.append(['linked data' if s.bool(1, 12) else 'data', name, body])
        else:
            entries.append(['junk', name, s.choice(('', 'not data', '{"segmentation_type": "linear", "items": {"junk": {"j": [1]}}}',
                                                    'coder\t1\njunk\t1\n', '\x00'))])
    if depth:
        for _ in range(s.weighted([(2, 0), (3, 1), (2, 2), (1, 3)])):
            name = s.choice(DIRS + new_names()) if s.bool(9, 10) else s.choice(DIRS)
            if name in used:
                continue
            used.add(name)
            entries.append(['linked dir' if s.bool(1, 12) else 'dir', name, gen_folder(s, filetype, depth - 1, coders, state)])
    return entries


def gen_tree(s):
    filetype = s.choice(('json', 'tsv'))
    coders = s.choice((['x', 'y', 'z'], ['1', u'\u00e9', 'a b']))
    tree = gen_folder(s, filetype, gen.notable(s, s.choice((1, 1, 2, 2, 2, 3, 3, 4, 7)), 24), coders, [0])
    return {'type': filetype, 'tree': s.shuffled(tree), 'slash': s.bool(1, 4), 'relative': s.bool(1, 4),
            'extend': None if s.bool() else [[i, [[c, gen.masses(s, 1, 9)] for c in s.subset(['x', 'old', 'older'], 2, 3)]]
                                             for i in s.subset(['a', 'b', 'd,a', 'old'], 1, 2)],
            'again': s.bool(1, 4), 'positional': s.bool(1, 3), 'root': s.choice(('root', 'x.json', 'a,b', u'\u00e9'))}


def write_tree(folder, entries, filetype, elsewhere):
    for kind, name, body in entries:
        path = os.path.join(folder, name)
        if kind.startswith('linked'):
            kind = kind[7:]
            target = tempfile.mkdtemp(dir=elsewhere)
            target = os.path.join(target, 'dir' if kind == 'dir' else 'file')
            os.symlink(target, path)
            path = target
        if kind == 'dir':
            os.mkdir(path)
            write_tree(path, body, filetype, elsewhere)
        elif kind == 'junk':
            with io.open(path, 'w', encoding='utf-8', newline='') as f:
                f.write(body)
        elif filetype == 'json':
            doc = {'segmentation_type': 'linear', 'items': {i: dict(cs) for i, cs in body}, 'note': name}
            with io.open(path, 'w', encoding='utf-8') as f:
                f.write(json.dumps(doc))
        else:
            case = {'delimiter': '\t', 'quoting': 'minimal', 'header': ['coder', '1'], 'rows': body[0][1], 'blank': [],
                    'spaces': False, 'eol': '\n', 'final': 1}
            with io.open(path, 'w', encoding='utf-8', newline='') as f:
                f.write(tsv_text(case))


def codings_of(entries, prefix):
    """(item, coder, masses) of every data file."""
    for kind, name, body in entries:
        if kind.endswith('dir'):
            for x in codings_of(body, prefix + [name]):
                yield x
        elif kind.endswith('data'):
            for item, cs in body:
                item = stem(name) if item is None else item
                for c, m in cs:
                    yield ','.join(prefix + [item]), c, m


def snapshot(folder):
    out = []
    for d, _, names in os.walk(folder):
        for n in names:
            with open(os.path.join(d, n), 'rb') as f:
                out.append((os.path.join(d, n), f.read()))
    return sorted(out)


def nested(entries):
    return max([1 + nested(b) for k, _, b in entries if k.endswith('dir')] or [0])


def check_tree(case):
    load = segeval.load_nested_folders_dict
    filetype = case['type']
    labels = {filetype, 'depth%d' % nested(case['tree'])}
    with Folder() as folder:
        root = os.path.join(folder, case['root'])
        os.mkdir(root)
        elsewhere = os.path.join(folder, 'elsewhere')
        os.mkdir(elsewhere)
        write_tree(root, case['tree'], filetype, elsewhere)
        if os.listdir(elsewhere):
            labels.add('links')
        before = snapshot(folder)
        argument = root + '/' if case['slash'] else root
        if case['relative']:
            argument = os.path.relpath(argument, os.getcwd()) + ('/' if case['slash'] else '')
        extend = case['extend']
        start = {} if extend is None else {i: {c: list(m) for c, m in cs} for i, cs in extend}
        want = {i: dict(cs) for i, cs in start.items()}
        duplicate = False
        total = 0
        for item, c, m in codings_of(case['tree'], []):
            total += 1
            if c in want.setdefault(item, {}):
                duplicate = True
            want[item][c] = list(m)
        given = None
        if extend is not None:
            given = sut.dataset(extend, vary=False)
            labels.add('extended')

        def run():
            if given is not None and case['positional']:
                return load(argument, filetype, given)
            return load(argument, filetype) if given is None else load(argument, filetype, dataset=given)
        if duplicate:
            labels.add('duplicate')
            raises(DataIOError, run, 'loading a tree in which a coder codes an item twice')
        else:
            got = run()
            if given is not None:
                require(got is given, 'the dataset passed in was not extended in place')
            require(content(got) == want, 'loading gave {0} instead of {1}', short(content(got), 600), short(want, 600))
            actual = {c for cs in want.values() for c in cs}
            require(set(got.coders) == actual, 'coders are {0} instead of {1}', short(got.coders), short(actual))
            if case['again'] and total:
                labels.add('loaded twice')
                fresh = load(argument, filetype)
                if given is None:
                    require(content(fresh) == want, 'loading again gave {0} instead of {1}', short(content(fresh)), short(want))
                other = load(argument, filetype, dataset=segeval.Dataset() if extend is None else sut.dataset(extend, vary=False))
                require(content(other) == want, 'loading again into another dataset gave {0} instead of {1}', short(content(other)),
                        short(want))
                raises(DataIOError, lambda: load(argument, filetype, dataset=got), 'loading the same tree into the same dataset twice')
                for i, cs in content(got).items():
                    require(cs == want.get(i), 'a refused load changed item {0!r} from {1} to {2}', i, short(want.get(i)), short(cs))
        require(snapshot(folder) == before, 'loading changed the files')
        leaks = open_files(folder)
        require(not leaks, 'files left open: {0}', leaks)
    return total > 0, sorted(labels) + ['files%d' % min(total, 6), 'merged' if total > len(want) and not duplicate else '']


SUBS = {
    'P21': [Sub('writes', gen_writes, check_writes, 8000)],
    'P22': [Sub('files', gen_file, check_file, 16000)],
    'P23': [Sub('files', gen_tsv, check_tsv, 12000)],
    'P24': [Sub('trees', gen_tree, check_tree, 8000)],
}
