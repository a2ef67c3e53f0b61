#!/usr/bin/env python3
"""tools/seed.py [ID...]: writes /verif/seeded/<id>/ for the planted bugs of
tools/seeds.py, each confirmed in a scratch copy of /repo."""
import json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from seeds import SEEDS
DEMO = '''#!/bin/bash
# Runs the demonstration test in the repository's test package.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
printf '{"Replace":{"%s/test/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$d" > "$t/overlay.json"
go test -overlay "$t/overlay.json" -count=1 -timeout 60s -run '^TestDemo$' ./test
rc=$?
rm -rf "$t"
exit $rc
'''
def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
want = sys.argv[1:]
for s in SEEDS:
    if want and s['id'] not in want: continue
    d = '/verif/seeded/' + s['id']
    if not want and os.path.exists(d + '/patch.diff'): continue
    w = tempfile.mkdtemp(prefix='seed', dir='/tmp')
    repo = w + '/repo'
    try:
        run(['cp', '-a', '/repo', repo], '/')
        tmp = w + '/seeded'; os.makedirs(tmp)
        open(tmp + '/demo.sh', 'w').write(DEMO); os.chmod(tmp + '/demo.sh', 0o755)
        open(tmp + '/demo_test.go', 'w').write(s['demo'])
        r = run(['bash', tmp + '/demo.sh'], repo)
        if r.returncode: print(s['id'], 'demo fails on the unchanged tree\n', r.stdout[-1500:]); continue
        bad = False
        for f, old, new in s['edits']:
            t = open(repo + '/' + f).read()
            if t.count(old) != 1: print(s['id'], 'edit matches', t.count(old), f, repr(old[:60])); bad = True; break
            open(repo + '/' + f, 'w').write(t.replace(old, new))
        if bad: continue
        p = run(['git', 'diff'], repo).stdout
        r = run(['gofmt', '-l', 'beatmap', 'math', 'performance', 'files'], repo)
        if r.stdout.strip(): print(s['id'], 'gofmt', r.stdout)
        r = run(['go', 'vet', './...'], repo)
        if r.returncode: print(s['id'], 'vet', r.stdout[-800:])
        r = run(['go', 'test', '-count=1', './...'], repo)
        if r.returncode: print(s['id'], 'existing tests fail\n', r.stdout[-1200:]); continue
        r = run(['bash', tmp + '/demo.sh'], repo)
        if r.returncode == 0: print(s['id'], 'demo passes with the change'); continue
        if 'build failed' in r.stdout: print(s['id'], 'demo does not build', r.stdout); continue
        os.makedirs(d, exist_ok=True)
        for f in ('demo.sh', 'demo_test.go'): shutil.copy(tmp + '/' + f, d + '/' + f)
        open(d + '/patch.diff', 'w').write(p)
        json.dump({k: s[k] for k in ('property', 'needs', 'what_it_breaks')}, open(d + '/meta.json', 'w'), indent=1)
        print(s['id'], 'ok:', [l for l in r.stdout.splitlines() if 'demo_test' in l or 'panic' in l][:1])
    finally:
        shutil.rmtree(w)
