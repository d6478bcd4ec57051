"""One search process: runs a shard of a property's cases, or replays cases."""
import argparse
import array
import json
import os
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)


def main():
    p = argparse.ArgumentParser()
    p.add_argument('--prop', required=True)
    p.add_argument('--tier', default='quick')
    p.add_argument('--seed', type=int, default=1)
    p.add_argument('--shard', type=int, default=0)
    p.add_argument('--nshards', type=int, default=1)
    p.add_argument('--seconds', type=float, default=100)
    p.add_argument('--only')
    p.add_argument('--out')
    p.add_argument('--replay')
    args = p.parse_args()
    import segeval
    origin = os.path.realpath(segeval.__file__)
    if not origin.startswith(os.path.realpath(REPO) + os.sep):
        sys.exit('wrong segeval imported: ' + origin)
    from harness import engine
    from harness.props import registry
    engine.install()
    subs = registry.subs(args.prop)
    if args.replay:
        with open(args.replay) as f:
            data = json.load(f)
        by_name = {s.name: s for s in subs}
        for case in data.get('before', []):
            engine.fails(by_name[case[0]], case[1])
        message = engine.fails(by_name[data['sub']], data['case'])
        if message is not None:
            print('VIOLATED: ' + message)
            sys.exit(1)
        print('holds')
        sys.exit(0)
    out = {'subs': [], 'error': None}
    t0 = time.time()
    hashes = array.array('Q')
    try:
        active = [s for s in subs if not args.only or s.name in args.only.split(',')]
        for k, sub in enumerate(active):
            # the time left is shared by the families still to come
            now = time.time()
            deadline = now + max(1.0, (t0 + args.seconds - now) / (len(active) - k))
            shard = engine.Shard(args.prop, sub, args.seed, args.shard, args.nshards, args.tier, deadline)
            shard.run()
            hashes.extend(engine.digest((sub.name, h)) for h in sorted(shard.hashes))
            out['subs'].append({
                'name': sub.name, 'evaluations': shard.evaluations, 'enumerated': shard.enumerated,
                'enum_complete': shard.enum_complete, 'mutated': shard.mutated,
                'nontrivial': len(shard.hashes), 'labels': dict(shard.labels), 'samples': shard.samples,
                'violation': shard.violation, 'cut': shard.cut, 'seconds': round(time.time() - now, 2)})
    except engine.HarnessError as e:
        out['error'] = str(e)
    with open(args.out + '.hashes', 'wb') as f:
        hashes.tofile(f)
    with open(args.out, 'w') as f:
        json.dump(out, f)


if __name__ == '__main__':
    main()
