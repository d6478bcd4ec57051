#!/usr/bin/env python3
"""Development tool (no check uses it): runs checks against a scratch copy of /repo with each seeded change applied.
usage: tools/seedrun.py [--all-checks] [--seed N] [id ...]"""
import json, os, shutil, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
every = '--all-checks' in args
seed = '1'
if '--seed' in args:
    i = args.index('--seed'); seed = args[i + 1]; del args[i:i + 2]
ids = [a for a in args if not a.startswith('--')] or sorted(os.listdir(os.path.join(ROOT, 'seeded')))
props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
for i in ids:
    d = os.path.join(ROOT, 'seeded', i)
    prop = json.load(open(d + '/meta.json'))['property']
    scratch = tempfile.mkdtemp(prefix='seedrun-')
    copy = os.path.join(scratch, 'repo')
    row = []
    try:
        shutil.copytree('/repo', copy, symlinks=True)
        subprocess.check_call(['git', '-C', copy, 'apply', d + '/patch.diff'])
        for p in (props if every else [prop]):
            t = time.time()
            r = subprocess.run([ROOT + '/check', p], cwd=ROOT, env=dict(os.environ, VERIF_SEED=seed, VERIF_REPO=copy),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            caught = r.returncode == 1 and 'VIOLATION property=' + p in r.stdout
            row.append((p, r.returncode, caught))
            if p == prop:
                print('%-34s %s %-6s %3.0fs %s' % (i, p, 'CAUGHT' if caught else 'rc=%d' % r.returncode, time.time() - t,
                      r.stdout.strip().splitlines()[0][:110] if r.stdout.strip() else ''), flush=True)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if every:
        print('    all: ' + ' '.join('%s%s' % (p, '' if c else '(rc%d)' % rc) for p, rc, c in row if rc), flush=True)
