#!/usr/bin/env python3
"""seed.py DIR...: turns planted-bug specs into /verif/seeded/ID.

DIR holds edit.py (edits the files of the tree it is run in), demo_test.go,
meta.json (property, needs, what_it_breaks; optional pkg, race).
Confirms in a scratch copy of /repo: the change builds, the repository's tests
pass with it, the demonstration passes without it and fails with it.
"""
import json, os, shutil, subprocess, sys, tempfile
ENV = dict(os.environ, GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off')
DEMO = '''#!/bin/bash
# Runs demo_test.go as a test of package %(pkg)s of the tree it is started in.
here=$(cd "$(dirname "$0")" && pwd) || exit 2
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
export PATH=$PATH:/usr/local/go/bin:/usr/local/bin
tmp=$(mktemp -d) || exit 2
trap 'rm -r "$tmp"' EXIT
cat >"$tmp/overlay.json" <<X
{"Replace": {"$PWD/%(pkg)s/zz_planted_demo_test.go": "$here/demo_test.go"}}
X
go test%(race)s -vet=off -count=1 -timeout 200s -overlay "$tmp/overlay.json" -run '^TestPlantedDemo$' ./%(pkg)s
'''
def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def one(d):
    d = os.path.abspath(d); id = os.path.basename(d)
    meta = json.load(open(d + '/meta.json'))
    pkg, race = meta.pop('pkg', '.'), ' -race' if meta.pop('race', False) else ''
    tmp = tempfile.mkdtemp(prefix='seed-')
    try:
        repo = tmp + '/repo'
        subprocess.check_call(['git', 'clone', '-q', '/repo', repo])
        out = tmp + '/out'; os.mkdir(out)
        shutil.copy(d + '/demo_test.go', out + '/demo_test.go')
        open(out + '/demo.sh', 'w').write(DEMO % dict(pkg=pkg, race=race)); os.chmod(out + '/demo.sh', 0o755)
        r = run([out + '/demo.sh'], repo)
        if r.returncode: return id, 'demo fails on clean tree:\n' + r.stdout[-3000:]
        r = run([sys.executable, d + '/edit.py'], repo)
        if r.returncode: return id, 'edit: ' + r.stdout
        diff = run(['git', 'diff'], repo).stdout
        r = run(['gofmt', '-l'] + [l[6:] for l in diff.splitlines() if l.startswith('+++ b/')], repo)
        if r.stdout.strip(): return id, 'gofmt: ' + r.stdout
        r = run(['go', 'build', './...'], repo)
        if r.returncode: return id, 'build: ' + r.stdout
        r = run(['go', 'test', '-vet=off', '-count=1', './...'], repo)
        if r.returncode: return id, 'tests fail:\n' + r.stdout[-3000:]
        for i in range(3):
            r = run([out + '/demo.sh'], repo)
            if r.returncode == 0: return id, 'demo passes with the change'
        # must change original lines
        base = {}
        orig = False
        for f in [l[6:] for l in diff.splitlines() if l.startswith('--- a/')]:
            bl = subprocess.run(['git', 'blame', '-s', 'HEAD', '--', f], cwd=repo, stdout=subprocess.PIPE, text=True).stdout.splitlines()
            base[f] = {i + 1 for i, l in enumerate(bl) if l.lstrip('^').startswith('80d6511')}
        f = None; ln = 0; touched = []
        for l in diff.splitlines():
            if l.startswith('--- a/'): f = l[6:]
            elif l.startswith('@@'): ln = int(l.split('-')[1].split(',')[0].split(' ')[0])
            elif l.startswith('+'): pass
            elif l.startswith('-') and not l.startswith('---'):
                touched.append(ln in base[f]); ln += 1
            elif f: ln += 1
        dst = '/verif/seeded/' + id
        if os.path.isdir(dst): shutil.rmtree(dst)
        os.makedirs(dst)
        open(dst + '/patch.diff', 'w').write(diff)
        shutil.copy(out + '/demo.sh', dst); shutil.copy(out + '/demo_test.go', dst)
        json.dump(meta, open(dst + '/meta.json', 'w'), indent=1); open(dst + '/meta.json', 'a').write('\n')
        return id, 'ok (%d original of %d removed lines)%s' % (sum(touched), len(touched), '' if any(touched) else '  <-- ONLY ADDS')
    finally:
        shutil.rmtree(tmp)
for d in sys.argv[1:]:
    print('%s: %s' % one(d), flush=True)
