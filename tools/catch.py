#!/usr/bin/env python3
"""Development tool: applies planted bugs to /repo one by one, runs checks, undoes.  catch.py [--all] [ID...]"""
import os, sys, json, subprocess, time, atexit
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
args = [a for a in sys.argv[1:] if not a.startswith('--')]; allc = '--all' in sys.argv
undo = lambda: subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
atexit.register(undo)
assert not subprocess.run(['git', '-C', '/repo', 'status', '--porcelain', '-uno'], stdout=subprocess.PIPE).stdout
for b in sorted(os.listdir(H + '/seeded')):
    if args and b not in args: continue
    prop = json.load(open(H + '/seeded/%s/meta.json' % b))['property']
    assert subprocess.run(['git', '-C', '/repo', 'apply', H + '/seeded/%s/patch.diff' % b]).returncode == 0, b
    hit = []
    for p in (['C%02d' % k for k in range(1, 37)] if allc else [prop]):
        t = time.time()
        r = subprocess.run(['python3', 'run.py', 'check', p, '--tier', 'quick', '--seed', '1'], cwd=H, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        v = 'VIOLATION property=%s ' % p in r.stdout
        if allc:
            if r.returncode == 1 and v: hit.append(p)
            elif r.returncode != 0: hit.append(p + '?%d' % r.returncode)
        else: print(b, prop, 'CAUGHT' if r.returncode == 1 and v else 'MISSED rc=%d' % r.returncode, '%.0fs' % (time.time() - t), r.stdout.strip().splitlines()[0][:200], flush=True)
    if allc: print(b, prop, 'own' if prop in hit else 'OWN MISSED', ' '.join(hit), flush=True)
    undo()
