#!/usr/bin/env python3
"""Plants bugs: writes seeded/<id>/ from tools/seeds/*.py-style tables and verifies each.

usage: seed.py [id ...]   (all when none is given)

A table entry: id, property, needs, what, edits [(file, old, new)...], kind 'main' or a
package directory (in-package test), code (Go source), run in a scratch copy of the repository."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SEEDS = {}
def seed(id, property, needs, what, edits, code, kind='main', helpers=()):
    assert id not in SEEDS, id
    SEEDS[id] = dict(property=property, needs=needs, what=what, edits=edits, code=code, kind=kind, helpers=helpers)
DEMO = '''#!/bin/bash
# Exit 0: the property holds. Nonzero: it is broken. Runs in the repository's top directory.
here=$(cd "$(dirname "$0")" && pwd) || exit 99
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off GOFLAGS=-mod=mod
tmp=$(mktemp -d) || exit 99
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/repo" && cp go.mod go.sum ./*.go "$tmp/repo/" && cp -r bptree hashmap "$tmp/repo/" || exit 99
rm -f "$tmp"/repo/*_test.go "$tmp"/repo/*/*_test.go
cp "$here/sum.txt" "$tmp/repo/go.sum" || exit 99
mkdir "$tmp/data" && export DEMO_DIR="$tmp/data"
'''
MAIN = '''mkdir "$tmp/repo/zzdemo" && cp "$here"/*.go.txt "$tmp/repo/zzdemo/" || exit 99
cd "$tmp/repo/zzdemo" && for f in *.go.txt; do mv "$f" "${f%.txt}"; done
cd "$tmp/repo" && go build -o "$tmp/demo" ./zzdemo || exit 99
timeout 250 "$tmp/demo"
'''
PKG = '''for f in "$here"/*.go.txt; do b=$(basename "$f" .go.txt); cp "$f" "$tmp/repo/%s/zz_${b}_test.go" || exit 99; done
cd "$tmp/repo" && timeout 250 go test -vet=off -count=1 -run '^TestZZDemo$' ./%s
'''
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)
def build(id, s, verify=True):
    d = os.path.join(ROOT, 'seeded', id)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    tmp = tempfile.mkdtemp(prefix='seed', dir='/tmp')
    try:
        repo = os.path.join(tmp, 'repo')
        subprocess.check_call(['git', 'clone', '-q', '/repo', repo])
        for f, old, new in s['edits']:
            p = os.path.join(repo, f); t = open(p).read()
            n = t.count(old)
            if n != 1: return 'edit matches %d times in %s: %r' % (n, f, old[:60])
            open(p, 'w').write(t.replace(old, new))
        r = sh('gofmt -l bptree hashmap *.go', cwd=repo)
        if r.stdout.strip(): return 'gofmt: ' + r.stdout
        diff = subprocess.check_output(['git', 'diff'], cwd=repo).decode()
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        # only original lines
        base = subprocess.check_output(['git', 'rev-list', '--max-parents=0', 'HEAD'], cwd=repo).decode().strip()
        for line in diff.splitlines():
            if line.startswith('-') and not line.startswith('---'):
                pass
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['what']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        open(os.path.join(d, 'meta.json'), 'a').write('\n')
        demo = DEMO + (MAIN if s['kind'] == 'main' else PKG % (s['kind'], s['kind']))
        open(os.path.join(d, 'demo.sh'), 'w').write(demo); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        open(os.path.join(d, 'demo.go.txt'), 'w').write(s['code'])
        shutil.copy(os.path.join(HERE, 'seeds', 'sum.txt'), os.path.join(d, 'sum.txt'))
        for h in s['helpers']:
            shutil.copy(os.path.join(HERE, 'seeds', h + '.go.txt'), os.path.join(d, h + '.go.txt'))
        if not verify: return 'written'
        for f in ('env.sh', 'build.sh', 'test.sh'):
            t = open('/opt/vp/' + f).read().replace('/repo', repo).replace('/opt/vp/env.sh', tmp + '/env.sh').replace('/opt/vp/plainkv.mod', tmp + '/plainkv.mod').replace('> /opt/vp/plainkv.sum', '> ' + tmp + '/plainkv.sum').replace('/opt/vp/test.log', tmp + '/test.log')
            open(os.path.join(tmp, f), 'w').write(t)
        r = sh('bash %s/build.sh' % tmp)
        if r.returncode: return 'does not build: ' + r.stdout[-500:]
        # stable tests
        r = sh('bash %s/test.sh %s/out.json' % (tmp, tmp))
        try: out = json.load(open(tmp + '/out.json'))
        except Exception as e: return 'tests: ' + r.stdout[-400:]
        base = json.load(open('/opt/vp/BASELINE.json'))
        bad = failing(base, out)
        if bad: return 'stable tests fail: %s' % bad
        dm = tempfile.mkdtemp(prefix='demo', dir='/tmp'); dd = os.path.join(dm, 'x'); shutil.copytree(d, dd)
        os.remove(dd + '/patch.diff'); os.remove(dd + '/meta.json')
        try:
            r1 = sh('bash %s/demo.sh' % dd, cwd='/repo')
            if r1.returncode: return 'demo fails on the unchanged tree: ' + r1.stdout[-1500:]
            r2 = sh('bash %s/demo.sh' % dd, cwd=repo)
            if r2.returncode in (0, 99): return 'demo gives %d with the change: %s' % (r2.returncode, r2.stdout[-1500:])
        finally: shutil.rmtree(dm)
        return 'ok: ' + r2.stdout.strip().splitlines()[0][:150] if r2.stdout.strip() else 'ok (silent)'
    finally:
        shutil.rmtree(tmp)
def names(x):
    return x
def failing(base, out):
    want = base.get('stable') or base.get('tests') or base.get('passed') or base
    got = out.get('passed') or out
    if isinstance(want, dict): want = [k for k, v in want.items() if v in ('pass', 'passed', True)]
    if isinstance(got, dict): got = [k for k, v in got.items() if v in ('pass', 'passed', True)]
    assert want and len(want) >= 14, (base, )
    return sorted(set(want) - set(got))
if __name__ == '__main__':
    sd = os.path.join(HERE, 'seeds')
    for f in sorted(os.listdir(sd)):
        if f.endswith('.py'): exec(compile(open(os.path.join(sd, f)).read(), f, 'exec'))
    ids = sys.argv[1:] or sorted(SEEDS)
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(1) as ex:
        for id, res in zip(ids, ex.map(lambda i: build(i, SEEDS[i]), ids)):
            print(id, SEEDS[id]['property'], res, flush=True)
