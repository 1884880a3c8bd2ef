#!/usr/bin/env python3
"""mut.py FILE.py...: ad hoc mutants and refactorings.

Each FILE defines M = [(name, [(path, old, new), ...], "C01 C02", expect)] with expect "bug" or "quiet".
Every mutant is applied to a scratch copy of /repo, built and tested there, and the checks are run on the copy.
"""
import sys, os, subprocess, shutil, runpy, re
xta = os.environ.get("XTA", "/tmp/xta")
only = os.environ.get("ONLY")
rc = 0
for f in sys.argv[1:]:
    for name, edits, ids, expect in runpy.run_path(f)["M"]:
        if only and not re.search(only, name):
            continue
        d = "/tmp/mut.%d" % os.getpid()
        subprocess.run(["rm", "-rf", d]); subprocess.run(["cp", "-a", "/repo", d], check=True)
        bad = None
        for path, old, new in edits:
            p = os.path.join(d, path); s = open(p).read()
            if s.count(old) < 1:
                bad = "no match for %r in %s" % (old[:60], path); break
            open(p, "w").write(s.replace(old, new, 1))
        if not bad:
            r = subprocess.run("""export GOROOT=/opt/veriftools/go1.27.3 GOTOOLCHAIN=local GOPROXY=off GOWORK=off
cp go.mod %(d)s.mod; cat go.sum /opt/vp/mods/root.extra.sum | sort -u > %(d)s.sum
go mod edit -require=github.com/golang/protobuf@v1.5.4 %(d)s.mod
export GOFLAGS="-mod=mod -modfile=%(d)s.mod"
go build ./... && go test -vet=off ./xproto/... ./netx/... ./slice/... ./types/... ./collation/... 2>&1 | grep -E 'FAIL|go:'; rm -f %(d)s.mod %(d)s.sum""" % {"d": d}, shell=True, executable="/bin/bash", cwd=d, capture_output=True, text=True)
            out = r.stdout + r.stderr
            if "FAIL" in out or "build failed" in out or ".go:" in out:
                bad = "tests/build: " + out.strip()[:300]
        if bad:
            print("%-34s BROKEN MUTANT %s" % (name, bad)); rc = 1
        else:
            for i in ids.split():
                v = "/tmp/mutv.%d" % os.getpid(); os.makedirs(v + "/evidence", exist_ok=True)
                for n in ("analyzer", "drivers", "properties.jsonl", "KNOWN_FINDINGS.txt"):
                    if not os.path.exists(v + "/" + n): os.symlink("/verif/" + n, v + "/" + n)
                r = subprocess.run([xta, "check", i, "quick"], env=dict(os.environ, XTA_REPO=d, XTA_VERIF=v), capture_output=True, text=True)
                got = {0: "quiet", 1: "bug"}.get(r.returncode, "rc%d" % r.returncode)
                ok = got == expect
                lines = [l for l in (r.stdout + r.stderr).splitlines() if "VIOLATION" not in l]
                print("%-34s %s %-5s %s %s" % (name, i, got, "ok" if ok else "<<<<<< expected " + expect, lines[0][:230] if lines and (not ok or os.environ.get("V")) else ""))
                if not ok: rc = 1
        sys.stdout.flush()
        subprocess.run(["rm", "-rf", d])
sys.exit(rc)
