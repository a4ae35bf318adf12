#!/usr/bin/env python3
"""sweep.py [--all] [id...]: applies each planted bug to /repo, runs the check of its property (or all), undoes it"""
import json, os, subprocess, sys, time
V = '/verif'
allc = '--all' in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith('--')] or sorted(os.listdir(V + '/seeded'))
props = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
assert subprocess.run(['git', '-C', '/repo', 'status', '--short'], capture_output=True, text=True).stdout == ''
for i in ids:
    m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
    r = subprocess.run(['git', '-C', '/repo', 'apply', '%s/seeded/%s/patch.diff' % (V, i)], capture_output=True, text=True)
    if r.returncode:
        print(i, 'DOES NOT APPLY', r.stderr[:200], flush=True)
        continue
    try:
        for p in (props if allc else [m['property']]):
            t = time.time()
            c = subprocess.run(['python3', 'check.py', p, 'quick'], cwd=V, capture_output=True, text=True)
            l = [x for x in c.stdout.splitlines() if x.startswith('violation')]
            print('%-28s %s rc=%d %5.1fs %s' % (i, p, c.returncode, time.time() - t, (l or c.stdout.splitlines()[-1:] or [''])[0][:140]), flush=True)
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'])
