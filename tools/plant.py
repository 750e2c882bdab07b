#!/usr/bin/env python3
"""Plant a bug: plant.py SPEC.py  -- SPEC.py defines id, property, edits
[(file, old, new)], needs, breaks, demo {file name: text} (with demo.sh, or a
Go test run in a package).  Works in a scratch copy; keeps the bug under
seeded/ when it builds, passes the tests and its demonstration tells the two
trees apart."""
import json, os, re, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

DEMO = '''#!/bin/bash
# Runs an in-package test (beside this script) against the tree in the current
# directory.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
export HOME=/root PATH=/opt/veriftools/go1.25.14/bin:$PATH GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOWORK=off GOENV=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build} GOFLAGS=
unset GOROOT
cp "$R/go.mod" "$T/m.mod" && cp "$R/go.sum" "$T/m.sum" || exit 3
go mod edit -replace=github.com/mewmew/mathclass=/opt/vp/standin/mathclass "$T/m.mod" || exit 3
export GOFLAGS="-mod=mod -modfile=$T/m.mod"
printf '{"Replace":{"%s":"%s"}}' "$R/PKG/zz_demo_test.go" "$D/demo_test.go" > "$T/ov.json"
go test -vet=off -overlay "$T/ov.json" -run '^TestDemo$' -count=1 -timeout 120s ./PKG
'''

def run(cmd, cwd, env=None, timeout=400):
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)

def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    for b in ns["BUGS"]:
        plant(b)

def plant(b):
    out = os.path.join(ROOT, "seeded", b["id"])
    tmp = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    rep = os.path.join(tmp, "repo")
    try:
        run(["git", "clone", "-q", "/repo", rep], tmp)
        for f, old, new in b["edits"]:
            p = os.path.join(rep, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "REJECTED: pattern occurs", s.count(old), "times in", f); return
            open(p, "w").write(s.replace(old, new))
        diff = run(["git", "diff"], rep).stdout
        base = run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], rep).stdout.strip()
        d = os.path.join(tmp, "demo"); os.makedirs(d)
        for n, t in b["demo"].items():
            open(os.path.join(d, n), "w").write(t)
        if "demo.sh" not in b["demo"]:
            open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("PKG", b["pkg"]))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        env = dict(os.environ)
        mod = os.path.join(tmp, "typast.mod")
        shutil.copy(os.path.join(rep, "go.mod"), mod); shutil.copy(os.path.join(rep, "go.sum"), os.path.join(tmp, "typast.sum"))
        env.update(HOME="/root", PATH="/opt/veriftools/go1.25.14/bin:" + env["PATH"], GOTOOLCHAIN="local", GOSUMDB="off", GOPROXY="off",
                   GOWORK="off", GOENV="off", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build", GOFLAGS="")
        env.pop("GOROOT", None)
        run(["go", "mod", "edit", "-replace=github.com/mewmew/mathclass=/opt/vp/standin/mathclass", mod], rep, env)
        env["GOFLAGS"] = "-mod=mod -modfile=" + mod
        r = run(["go", "build", "./..."], rep, env)
        if r.returncode:
            print(b["id"], "REJECTED: does not build", r.stderr[:600]); return
        r = run(["go", "test", "-count=1", "-json", "./..."], rep, env)
        failed = set()
        for l in r.stdout.splitlines():
            try:
                e = json.loads(l)
            except ValueError:
                continue
            if e.get("Action") == "fail" and e.get("Test"):
                failed.add(e["Package"] + "::" + e["Test"])
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        bad = [s for s in stable if any(s.endswith(f) or f.endswith(s) or s.replace("/", "::").endswith(f) for f in failed)]
        r2 = run(["bash", os.path.join(d, "demo.sh")], rep)
        r3 = run(["bash", os.path.join(d, "demo.sh")], "/repo")
        r = run(["go", "test", "-count=1", "-json", "./..."], "/repo", env)
        for l in r.stdout.splitlines():
            try:
                e = json.loads(l)
            except ValueError:
                continue
            if e.get("Action") == "pass" and e.get("Test") and e["Package"] + "::" + e["Test"] in failed:
                bad.append(e["Test"])
        if bad or r2.returncode == 0 or r3.returncode != 0:
            print(b["id"], "REJECTED: tests broken by it", bad, "demo with bug", r2.returncode, "without", r3.returncode,
                  (r2.stdout + r2.stderr)[-600:] if r2.returncode == 0 else (r3.stdout + r3.stderr)[-1500:]); return
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        print(b["id"], "kept; failed tests:", sorted(failed), "demo says:", (r2.stdout.strip().splitlines() or [""])[0:2])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

main()
