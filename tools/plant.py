#!/usr/bin/env python3
"""plant.py [-c PROPS] [ID...]: makes seeded/<id> from tools/plants/<id>.py: patch, demonstration and description.
Confirms in a scratch copy of /repo that the patch applies, builds, passes the tests, and that the demonstration tells the trees apart."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = V + '/tools/plants'
ENV = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local', GOWORK='off')
STABLE = json.load(open('/opt/vp/BASELINE.json'))

def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

DEMO = '''#!/bin/bash
# Runs demo_test.go as a test of a package of its own inside the module.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 9
trap 'rm -rf "$tmp"' EXIT
{ echo '{"Replace": {'; sep=
for f in "$here"/*_test.go; do printf '%s"%s/pkg/zzdemo/%s": "%s"' "$sep" "$repo" "$(basename "$f")" "$f"; sep=,; done
echo '}}'; } >"$tmp/o.json"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off TMPDIR=$tmp
export GOCACHE=${GOCACHE:-/root/.cache/go-build}
mkdir -p "$GOCACHE" 2>/dev/null && [ -w "$GOCACHE" ] || export GOCACHE=$tmp/cache
go test -c -overlay "$tmp/o.json" -vet=off @RACE@ -o "$tmp/demo" ./pkg/zzdemo || exit 8
cd "$tmp" && ./demo -test.timeout 200s
'''

def stable_names():
    b = STABLE
    return b

def main():
    names = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(f[:-3] for f in os.listdir(P) if f.endswith('.py'))
    for n in names:
        g = {}
        exec(open(P + '/' + n + '.py').read(), g)
        d = tempfile.mkdtemp(prefix='plant')
        try:
            shutil.copytree('/repo', d + '/repo', symlinks=True)
            r = d + '/repo'
            bad = None
            for f, old, new in g['edits']:
                s = open(r + '/' + f).read()
                if s.count(old) != 1:
                    bad = '%s: %d occurrences of %r' % (f, s.count(old), old); break
                open(r + '/' + f, 'w').write(s.replace(old, new))
            if bad: print(n, 'FAILED', bad); continue
            patch = sh('git diff', r).stdout
            b = sh('go build ./...', r)
            if b.returncode: print(n, 'FAILED build', b.stdout[-800:]); continue
            t = sh('go test -vet=off -count=1 -timeout 60s ./...', r)
            if t.returncode: print(n, 'FAILED tests', t.stdout[-1500:]); continue
            o = V + '/seeded/' + n
            shutil.rmtree(o, ignore_errors=True); os.makedirs(o)
            open(o + '/patch.diff', 'w').write(patch)
            json.dump(dict(property=g['prop'], needs=g['needs'], what_it_breaks=g['breaks']), open(o + '/meta.json', 'w'), indent=1)
            if 'script' in g:
                open(o + '/demo.sh', 'w').write(g['script'])
            else:
                open(o + '/demo.sh', 'w').write(DEMO.replace('@RACE@', g.get('flags', '')))
                shutil.copy(P + '/lib_test.go', o + '/lib_test.go')
                open(o + '/demo_test.go', 'w').write(g['demo'].lstrip())
                os.makedirs(r + '/pkg/zzdemo', exist_ok=True)
                shutil.copy(o + '/demo_test.go', r + '/pkg/zzdemo/demo_test.go'); shutil.copy(o + '/lib_test.go', r + '/pkg/zzdemo/lib_test.go')
                subprocess.run(['goimports', '-w', r + '/pkg/zzdemo/demo_test.go'], cwd=r + '/pkg/zzdemo', env=ENV)
                shutil.copy(r + '/pkg/zzdemo/demo_test.go', o + '/demo_test.go')
                shutil.rmtree(r + '/pkg/zzdemo')
            os.chmod(o + '/demo.sh', 0o755)
            a = sh(o + '/demo.sh', r, timeout=300)
            sh('git checkout -q -- .', r)
            c = sh(o + '/demo.sh', r, timeout=300)
            if a.returncode == 0 or c.returncode != 0:
                print(n, 'FAILED demo: patched rc', a.returncode, 'clean rc', c.returncode, '\n', (a.stdout if a.returncode == 0 else c.stdout)[-1500:])
                continue
            why = [l for l in a.stdout.split('\n') if 'demo_test' in l or 'panic' in l or 'lib_test' in l or 'undefined' in l][:1]
            print(n, 'ok', why, flush=True)
        finally:
            shutil.rmtree(d)
main()
