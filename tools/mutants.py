#!/usr/bin/env python3
"""mutants.py FILE [NAME...]: applies each change of FILE (a list M of (name, props, edits)) to /repo, checks that it builds and
passes the tests, and runs the checks of the properties it should break. /repo is restored after each."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local', GOWORK='off')
def sh(cmd, cwd='/repo', t=900):
    try:
        return subprocess.run(cmd, cwd=cwd, shell=True, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    except subprocess.TimeoutExpired as e:
        class R: returncode = 99; stdout = 'timed out'
        return R
g = {}
exec(open(sys.argv[1]).read(), g)
want = sys.argv[2:]
if sh('git status --porcelain').stdout: sys.exit('/repo is not clean')
for name, props, edits in g['M']:
    if want and name not in want: continue
    try:
        bad = None
        for f, old, new in edits:
            s = open('/repo/' + f).read()
            if s.count(old) != 1: bad = '%s: %d of %r' % (f, s.count(old), old); break
            open('/repo/' + f, 'w').write(s.replace(old, new))
        if bad: print(name, 'BAD', bad); continue
        sh('goimports -w ' + ' '.join(sorted({e[0] for e in edits})))
        b = sh('go build ./...')
        if b.returncode: print(name, 'BUILD', b.stdout[-400:]); continue
        t = sh('go test -vet=off -count=1 -timeout 60s ./...')
        tests = 'ok' if t.returncode == 0 else 'TESTS-FAIL'
        for p in props.split():
            r = sh('timeout 900 ./run.sh ' + p, V, 1000)
            why = [l.strip() for l in r.stdout.split('\n') if l.startswith('  ')][:1]
            print(name, p, tests, {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'error %d' % r.returncode), (why or [r.stdout[-200:]])[0][:160] if r.returncode else '', flush=True)
    finally:
        sh('git checkout -q -- .')
