#!/usr/bin/env python3
"""Driver of one property's check: shards the search, confirms and reports violations,
writes the evidence file."""
import array
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYPY = os.environ.get('VERIF_PYTHON', '/opt/venv/bin/python')
LIMITS = {'quick': 240, 'thorough': 780}


def environment(scratch):
    env = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX=os.path.join(scratch, 'nopyc'),
               PYTHONHASHSEED='0', LC_ALL='C.UTF-8', TMPDIR=scratch, VERIF_SCRATCH=scratch)
    return env


def command(*args):
    return [PYPY, '-W', 'ignore', os.path.join(ROOT, 'harness', 'worker.py')] + [str(a) for a in args]


def replays(env, scratch, prop, replay):
    path = os.path.join(scratch, 'candidate.json')
    with open(path, 'w') as f:
        json.dump(replay, f)
    r = subprocess.run(command('--prop', prop, '--replay', path), env=env, cwd=scratch,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
    return r.returncode == 1, r.stdout.decode('utf-8', 'replace')


def main():
    p = argparse.ArgumentParser()
    p.add_argument('prop')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    p.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    p.add_argument('--shards', type=int, default=8)
    p.add_argument('--only')
    p.add_argument('--replay', help='re-run one saved violation')
    args = p.parse_args()
    if args.tier not in LIMITS:
        args.tier = 'quick'
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % args.prop)
    try:
        code = check(args, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


def check(args, scratch):
    started = time.time()
    env = environment(scratch)
    if args.replay:
        with open(args.replay) as f:
            bad, text = replays(env, scratch, args.prop, json.load(f))
        print(text)
        if bad:
            print('VIOLATION property=%s replay=%s' % (args.prop, args.replay))
        return 1 if bad else 0
    procs = []
    limit = LIMITS[args.tier]
    for shard in range(args.shards):
        out = os.path.join(scratch, 'shard%d.json' % shard)
        work = os.path.join(scratch, 'work%d' % shard)
        os.mkdir(work)
        cmd = command('--prop', args.prop, '--tier', args.tier, '--seed', args.seed, '--shard', shard,
                      '--nshards', args.shards, '--seconds', limit, '--out', out,
                      *(['--only', args.only] if args.only else []))
        e = dict(env, TMPDIR=work, VERIF_SCRATCH=work)
        log = open(out + '.log', 'wb')
        procs.append((out, subprocess.Popen(cmd, env=e, cwd=work, stdout=log, stderr=subprocess.STDOUT)))
    results, errors = [], []
    for out, proc in procs:
        try:
            proc.wait(timeout=max(1, started + limit + 90 - time.time()))
        except subprocess.TimeoutExpired:
            proc.kill()
            proc.wait()
        if os.path.exists(out):
            with open(out) as f:
                r = json.load(f)
            results.append((out, r))
            if r['error']:
                errors.append(r['error'])
        else:
            with open(out + '.log', 'rb') as f:
                errors.append('worker ended with %s: %s' % (
                    proc.returncode, f.read()[-3000:].decode('utf-8', 'replace')))
    subs, hashes, violations = {}, set(), {}
    for out, r in results:
        a = array.array('Q')
        size = os.path.getsize(out + '.hashes') // 8
        with open(out + '.hashes', 'rb') as f:
            a.fromfile(f, size)
        hashes.update(a)
        for s in r['subs']:
            t = subs.setdefault(s['name'], {'evaluations': 0, 'enumerated': 0, 'mutated': 0, 'labels': {},
                                            'samples': [], 'cut': False, 'enum_complete': None})
            for k in ('evaluations', 'enumerated', 'mutated'):
                t[k] += s[k]
            for k, v in s['labels'].items():
                t['labels'][k] = t['labels'].get(k, 0) + v
            t['samples'].extend(s['samples'][:1])
            t['cut'] = t['cut'] or s['cut']
            if s['enum_complete'] is not None:
                t['enum_complete'] = s['enum_complete'] and t['enum_complete'] is not False
            if s['violation']:
                old = violations.get(s['name'])
                if old is None or len(json.dumps(s['violation']['case'])) < len(json.dumps(old['case'])):
                    violations[s['name']] = s['violation']
    confirmed = [confirm(args, env, scratch, v) for v in violations.values()]
    evidence(args, started, subs, hashes, confirmed)
    for path, v in confirmed:
        print('%s/%s: %s' % (args.prop, v['sub'], v['message']))
        print('  case: %s' % json.dumps(v['case'])[:1500])
        print('VIOLATION property=%s replay=%s' % (args.prop, path))
    if confirmed:
        return 1
    if errors:
        for e in errors[:3]:
            sys.stderr.write('HARNESS ERROR: %s\n' % e)
        return 2
    total = sum(t['evaluations'] for t in subs.values())
    print('%s holds on %d cases (%d distinct non-trivial), %.1f s%s' % (
        args.prop, total, len(hashes), time.time() - started,
        ' [time limit reached]' if any(t['cut'] for t in subs.values()) else ''))
    return 0


def confirm(args, env, scratch, v):
    """Re-run in a fresh process; record what is needed to reproduce."""
    replay = {'property': args.prop, 'sub': v['sub'], 'case': v['case'], 'message': v['message'],
              'how': './check %s --replay <this file>' % args.prop}
    try:
        bad, _ = replays(env, scratch, args.prop, replay)
        if not bad:
            bad, _ = replays(env, scratch, args.prop, dict(replay, case=v['original']))
            if bad:
                replay['case'] = v['case'] = v['original']
        if not bad:
            replay['history'] = ('fails only after the cases before it: shard {shard} of {nshards}, seed {seed}, tier '
                                 '{tier}, evaluation {evaluation}').format(**v)
            v['message'] += '\n  (not reproduced alone in a fresh process: depends on the calls before it)'
    except subprocess.TimeoutExpired:
        pass
    folder = os.path.join(ROOT, 'replays')
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, '%s-%s.json' % (args.prop, v['sub']))
    with open(path, 'w') as f:
        json.dump(replay, f, indent=1)
    return path, v


def evidence(args, started, subs, hashes, confirmed):
    sys.path.insert(0, ROOT)
    from harness.props import rules
    data = {
        'property': args.prop, 'tier': args.tier, 'seed': args.seed, 'level': 'exploration',
        'coverage': {
            'evaluations': sum(t['evaluations'] for t in subs.values()),
            'distinct_nontrivial': len(hashes),
            'rule': rules.RULES.get(args.prop, ''),
            'samples': [{'family': n, 'case': s} for n, t in subs.items() for s in t['samples'][:2]],
            'families': {n: {'evaluations': t['evaluations'], 'enumerated': t['enumerated'],
                             'enumeration_complete': t['enum_complete'], 'mutated': t['mutated'],
                             'time_limit_reached': t['cut'],
                             'distribution': dict(sorted(t['labels'].items()))} for n, t in subs.items()},
            'interpreter': PYPY, 'shards': args.shards,
        },
        'assumptions': rules.ASSUMPTIONS.get(args.prop, []) + rules.COMMON,
        'wall_s': round(time.time() - started, 2),
        'violations': len(confirmed),
    }
    folder = os.path.join(ROOT, 'evidence')
    os.makedirs(folder, exist_ok=True)
    with open(os.path.join(folder, args.prop + '.json'), 'w') as f:
        json.dump(data, f, indent=1, ensure_ascii=True)


if __name__ == '__main__':
    main()
