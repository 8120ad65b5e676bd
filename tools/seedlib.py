"""Helpers to record planted bugs in /verif/seeded (development only; no check reads this)."""
import json, os, shutil, subprocess, sys, tempfile
SEEDED = "/verif/seeded"
GO_DEMO = r'''#!/bin/bash
# Runs the demonstration beside this file as an extra test of {pkg}, from the repository's root.
HERE=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
export GOFLAGS= GOPROXY=off GOTOOLCHAIN=local GOENV=off HOME=${{HOME:-/root}}
printf 'go 1.25\n\nuse (\n\t%s\n\t%s\n)\n' "$R" "$R/autoversion" > "$T/go.work"
export GOWORK="$T/go.work"
cp "$HERE/demo.go.txt" "$T/zz_demo_test.go"
printf '{{"Replace":{{"%s/{dir}/zz_demo_test.go":"%s/zz_demo_test.go"}}}}' "$R" "$T" > "$T/overlay.json"
cd {cd} && timeout 250 {go} test -overlay "$T/overlay.json" -vet=off -count=1 -run 'TestDemo' {pkg}
'''
def seed(id, prop, needs, breaks, edits, demo_go=None, demo_sh=None, pkg="./textseg", dir="textseg", cd="\"$R\"", go="go", extra=None):
    tmp = tempfile.mkdtemp(prefix="mut")
    try:
        subprocess.check_call(["cp", "-a", "/repo", tmp + "/r"])
        r = tmp + "/r"
        for f, old, new in edits:
            p = os.path.join(r, f)
            s = open(p).read()
            if s.count(old) != 1:
                sys.exit(f"{id}: {f}: {s.count(old)} matches for {old[:60]!r}")
            open(p, "w").write(s.replace(old, new))
        if extra: extra(r)
        subprocess.call(["gofmt", "-l", r])
        diff = subprocess.check_output(["git", "-C", r, "diff"]).decode()
        d = os.path.join(SEEDED, id)
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        if demo_go is not None:
            open(d + "/demo.go.txt", "w").write(demo_go)
            open(d + "/demo.sh", "w").write(GO_DEMO.format(pkg=pkg, dir=dir, cd=cd, go=go))
        else:
            open(d + "/demo.sh", "w").write(demo_sh)
        os.chmod(d + "/demo.sh", 0o755)
    finally:
        shutil.rmtree(tmp)
