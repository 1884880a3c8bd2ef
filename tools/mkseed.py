#!/usr/bin/env python3
"""mkseed.py FILE...: each FILE is a Python file defining ID, PROPERTY, NEEDS, BREAKS, EDITS [(path, old, new)], DEMO {path in repo: Go test source}, RUN (go test arguments).
Builds /verif/seeded/<ID>/ and confirms in a scratch copy that the change builds, passes the stable tests and that the demonstration tells the trees apart."""
import json, os, shutil, subprocess, sys, tempfile
def sh(cmd, cwd, **kw): return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
DEMO_SH = '''#!/bin/bash
# run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf -- "$tmp"' EXIT
export GOPROXY=off GOSUMDB=off GONOSUMDB='*' GOFLAGS=-mod=mod GOTOOLCHAIN=local GOWORK=off
cp go.mod "$tmp/x.mod" && cp go.sum "$tmp/x.sum" || exit 2
go mod edit -require=github.com/golang/protobuf@v1.5.4 -replace="github.com/renthraysk/xtorm/protobuf=$PWD/protobuf" "$tmp/x.mod" || exit 2
cat > "$tmp/o.json" <<EOF
{"Replace": {%s}}
EOF
go test -vet=off -modfile "$tmp/x.mod" -overlay "$tmp/o.json" -count=1 %s
'''
def main(f):
    g = {}
    exec(open(f).read(), g)
    out = '/verif/seeded/' + g['ID']
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    rep = []
    for i, (p, src) in enumerate(g['DEMO'].items()):
        n = 'demo%d_test.go.txt' % i
        open(out + '/' + n, 'w').write(src)
        rep.append('"$PWD/%s": "$here/%s"' % (p, n))
    open(out + '/demo.sh', 'w').write(DEMO_SH % (', '.join(rep), g['RUN'])); os.chmod(out + '/demo.sh', 0o755)
    json.dump({'property': g['PROPERTY'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
    t = tempfile.mkdtemp(prefix='seed-')
    try:
        w = t + '/repo'
        shutil.copytree('/repo', w, symlinks=True)
        r = sh('bash %s/demo.sh' % out, w)
        if r.returncode: print(g['ID'], 'DEMO FAILS ON CLEAN TREE\n', r.stdout[-1500:]); return
        for p, a, b in g['EDITS']:
            s = open(w + '/' + p).read()
            if s.count(a) != 1: print(g['ID'], 'edit matches', s.count(a), 'times:', a); return
            open(w + '/' + p, 'w').write(s.replace(a, b))
        d = sh('git diff', w).stdout
        open(out + '/patch.diff', 'w').write(d)
        r = sh('bash %s/demo.sh' % out, w)
        if r.returncode == 0: print(g['ID'], 'DEMO PASSES WITH CHANGE'); return
        if 'build failed' in r.stdout: print(g['ID'], 'BUILD\n', r.stdout[-1500:]); return
        # build and the stable tests on the changed tree: apply to /repo for a moment
        r2 = sh('git apply %s/patch.diff' % out, '/repo')
        try:
            b = sh('bash /opt/vp/build.sh', '/repo')
            x = sh('bash /opt/vp/test.sh %s/t.json' % t, '/repo')
        finally:
            sh('git checkout -- .', '/repo')
        base = json.load(open('/opt/vp/BASELINE.json')); got = json.load(open(t + '/t.json'))
        def passed(j): 
            for k in ('passed', 'pass', 'stable'): 
                if k in j: return set(j[k])
            return set(j)
        miss = passed(base) - passed(got)
        print(g['ID'], 'ok' if b.returncode == 0 and not miss else 'TESTS FAIL %s' % list(miss)[:3], '|', [l for l in r.stdout.splitlines() if 'demo' in l or 'panic' in l][:2])
    finally:
        shutil.rmtree(t, ignore_errors=True)
for f in sys.argv[1:]: main(f)
