"""Development only: mutation analysis. usage: run.py FILE(relative to /repo) "PROPS" [JOBS]
Reports the mutants that compile and pass the tests, and which checks see them."""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
file, props, jobs = sys.argv[1], sys.argv[2].split(), int(sys.argv[3]) if len(sys.argv) > 3 else 8
gen = "generate.go" in file and "gentable" not in file
here = os.path.dirname(os.path.abspath(__file__))
muts = tempfile.mkdtemp(prefix="mutants")
subprocess.check_call(["go", "run", here + "/main.go", "--", "/repo/" + file, muts])
ids = sorted(f[:-3] for f in os.listdir(muts) if f.endswith(".go"))
work = {}
import threading
lock = threading.Lock(); free = []
for j in range(jobs):
    t = tempfile.mkdtemp(prefix="mutw"); subprocess.check_call(["cp", "-a", "/repo", t + "/r"])
    open(t + "/go.work", "w").write(f"go 1.25\n\nuse (\n\t{t}/r\n\t{t}/r/autoversion\n)\n"); free.append(t)
def one(i):
    with lock: t = free.pop()
    try:
        r = t + "/r"
        shutil.copy(f"{muts}/{i}.go", f"{r}/{file}")
        what = open(f"{muts}/{i}.txt").read().strip()
        env = dict(os.environ, GOWORK=t + "/go.work", GOFLAGS="", GOPROXY="off", GOTOOLCHAIN="local")
        def go(args, cwd): return subprocess.run(args, cwd=cwd, env=env, capture_output=True, text=True, timeout=900)
        if go(["go", "build", "./..."], r).returncode or go(["go", "build", "-o", "/dev/null", "./generate.go"], r + "/textseg/internal/charprops").returncode: return None
        try:
            if subprocess.run(["timeout", "60", "go", "test", "-vet=off", "-count=1", "./..."], cwd=r, env=env, capture_output=True).returncode: return ("killed", what, "")
            if file.startswith("autoversion") and subprocess.run(["timeout", "60", "go", "test", "-vet=off", "-count=1", "./..."], cwd=r + "/autoversion", env=env, capture_output=True).returncode: return ("killed", what, "")
        except subprocess.TimeoutExpired: return ("killed", what, "")
        e2 = dict(os.environ, VERIF_REPO=r, VERIF_EVIDENCE=t + "/ev")
        p = subprocess.run(["/verif/run.sh", *props], env=e2, capture_output=True, text=True)
        hit = sorted({l.split("property=")[1].split()[0] for l in p.stdout.split("\n") if l.startswith("VIOLATION")})
        first = next((l.strip() for l in p.stdout.split("\n") if l.startswith("  ")), "")
        if p.returncode not in (0, 1): first = "RC=%d %s" % (p.returncode, (p.stdout + p.stderr)[-200:])
        return ("seen " + ",".join(hit) if hit else "QUIET", what, first[:160])
    finally:
        shutil.copy("/repo/" + file, f"{t}/r/{file}")
        with lock: free.append(t)
n = k = 0
with ThreadPoolExecutor(jobs) as ex:
    for i, res in zip(ids, ex.map(one, ids)):
        if res is None: continue
        n += 1
        if res[0] == "killed": k += 1; continue
        print(i, *res, sep=" | ", flush=True)
print(f"{n} compile, {k} killed by the tests")
for t in free: shutil.rmtree(t)
shutil.rmtree(muts)
