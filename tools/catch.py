#!/usr/bin/env python3
"""catch.py [-p PROP] [id ...]: runs a check against each planted bug (applied to /repo, undone afterwards)."""
import json, os, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]; prop = None
if args[:1] == ['-p']: prop = args[1]; args = args[2:]
ids = args or sorted(os.listdir(ROOT + '/seeded'))
assert not subprocess.check_output(['git', '-C', '/repo', 'status', '--porcelain']), 'dirty /repo'
for i in ids:
    d = os.path.join(ROOT, 'seeded', i); p = prop or json.load(open(d + '/meta.json'))['property']
    subprocess.check_call(['git', '-C', '/repo', 'apply', d + '/patch.diff'])
    try:
        t = time.time()
        r = subprocess.run(['bash', ROOT + '/check.sh', p, 'quick'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        print('%-24s %s exit %d %3.0fs %s' % (i, p, r.returncode, time.time() - t, (v[0][:200] if v else 'MISSED ' + r.stdout.strip()[-200:])), flush=True)
    finally:
        subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
