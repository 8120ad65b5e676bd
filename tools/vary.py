"""Development harness: applies small edits to scratch copies of /repo and runs checks on them.
A variant file defines GOOD and BAD: name -> (properties, [(file, old, new)...]).
Checks must be quiet on GOOD and raise a VIOLATION on BAD. usage: vary.py FILE.py [NAME...]"""
import os, re, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
M = runpy.run_path(sys.argv[1]); only = sys.argv[2:]
def build(r):
    w = os.path.join(os.path.dirname(r), "go.work")
    open(w, "w").write(f"go 1.25\n\nuse (\n\t{r}\n\t{r}/autoversion\n)\n")
    env = dict(os.environ, GOWORK=w, GOFLAGS="", GOPROXY="off", GOTOOLCHAIN="local")
    for d, cmd in (("", ["go", "build", "./..."]), ("/textseg/internal/charprops", ["go", "build", "-o", "/dev/null", "./generate.go"]), ("/autoversion", ["go", "build", "./..."])):
        p = subprocess.run(cmd, cwd=r + d, env=env, capture_output=True, text=True)
        if p.returncode: return p.stdout + p.stderr
    return ""
def one(job):
    kind, name, props, edits = job
    tmp = tempfile.mkdtemp(prefix="vary")
    try:
        r = tmp + "/r"
        subprocess.check_call(["cp", "-a", "/repo", r])
        for e in edits:
            if callable(e): e(r); continue
            f, old, new = e
            p = os.path.join(r, f); s = open(p).read() if os.path.exists(p) else ""
            if old is None: s = s + new
            elif s.count(old) != 1: return f"{name}: {f}: {s.count(old)} matches for {old[:50]!r}"
            else: s = s.replace(old, new)
            open(p, "w").write(s)
        b = build(r)
        if b: return f"{name}: DOES NOT BUILD: {b[:600]}"
        out = []
        for prop in ([props] if kind == "good" else props.split()):
            env = dict(os.environ, VERIF_REPO=r, VERIF_EVIDENCE=tmp + "/ev")
            p = subprocess.run(["/verif/run.sh", *prop.split()], env=env, capture_output=True, text=True)
            want = 0 if kind == "good" else 1
            ok = p.returncode == want
            lines = [l for l in p.stdout.strip().split("\n")]
            if not ok: out.append(f"{name}: {prop}: {'FALSE ALARM' if kind=='good' else 'MISSED'} rc={p.returncode}\n      " + "\n      ".join([l for l in lines if not l.startswith("OK ")][:4]))
            else: out.append(f"{name}: {prop}: ok" + (" :: " + lines[0][:150] if kind == "bad" else ""))
        return "\n".join(out)
    finally:
        shutil.rmtree(tmp)
jobs = [("good", n, *v) for n, v in M["GOOD"].items()] + [("bad", n, *v) for n, v in M["BAD"].items()]
jobs = [j for j in jobs if not only or j[1] in only]
with ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex:
    for j, out in zip(jobs, ex.map(one, jobs)): print(f"[{j[0]}] {out}", flush=True)
