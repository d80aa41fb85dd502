#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from a bug description (development tool).

seed.py SPEC.py: SPEC defines BUGS = [dict(id, prop, needs, breaks, edits=[(file, old, new)], pkg, test)].
Each change is confirmed in a scratch copy: it compiles, the existing tests pass,
the demonstration passes without it and fails with it.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile
env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOSUMDB="off", CGO_ENABLED="0")
DEMO = r'''#!/bin/bash
# Demonstrates the change: exit 0 on the unchanged tree, nonzero with the patch. Run with cwd = the repository.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
tmp="$(mktemp -d)"; trap 'rm -rf "$tmp"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off CGO_ENABLED=0
echo "{\"Replace\": {\"$repo/@PKG@/zz_demo_test.go\": \"$here/demo_test.go.txt\"}}" > "$tmp/overlay.json"
go test -overlay "$tmp/overlay.json" -count=1 -run '^TestZZDemo$' "./@PKG@"
'''
def run(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, env=env, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
spec = runpy.run_path(sys.argv[1])
only = sys.argv[2:]
for b in spec["BUGS"]:
    if only and b["id"] not in only: continue
    d = tempfile.mkdtemp(prefix="seed-"); wt = d + "/repo"
    run(["cp", "-a", "/repo", wt], "/")
    out = tempfile.mkdtemp(prefix="seedout-")
    try:
        demo = DEMO.replace("@PKG@", b["pkg"])
        if b.get("race"): demo = demo.replace("CGO_ENABLED=0", "CGO_ENABLED=1").replace("go test ", "go test -race ")
        open(out + "/demo.sh", "w").write(demo); os.chmod(out + "/demo.sh", 0o755)
        open(out + "/demo_test.go.txt", "w").write(b["test"])
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        r = run(["bash", out + "/demo.sh"], wt)
        if r.returncode != 0: print(b["id"], "DEMO FAILS UNPATCHED\n", r.stdout[-1500:]); continue
        ok = True
        for f, old, new in b["edits"]:
            s = open(wt + "/" + f, newline="").read()
            nl = "\r\n" if "\r\n" in s else "\n"
            old, new = old.replace("\n", nl), new.replace("\n", nl)
            if s.count(old) != 1: print(b["id"], "EDIT does not match once:", f, s.count(old), repr(old)); ok = False; break
            open(wt + "/" + f, "w", newline="").write(s.replace(old, new))
        if not ok: continue
        r = run("go build ./... && go vet ./... ; go test -count=1 ./...", wt)
        if "FAIL" in r.stdout or r.returncode != 0: print(b["id"], "TESTS FAIL\n", r.stdout[-1500:]); continue
        r = run(["bash", out + "/demo.sh"], wt)
        if r.returncode == 0: print(b["id"], "DEMO PASSES WITH THE CHANGE"); continue
        diff = subprocess.run(["git", "diff"], cwd=wt, stdout=subprocess.PIPE).stdout
        open(out + "/patch.diff", "wb").write(diff)
        dst = "/verif/seeded/" + b["id"]
        shutil.rmtree(dst, ignore_errors=True); shutil.copytree(out, dst)
        print(b["id"], "ok:", r.stdout.strip().splitlines()[0][:150])
    finally:
        shutil.rmtree(d); shutil.rmtree(out)
