#!/usr/bin/env python3
"""Tries hand-written changes of bruteray against the checks, in copies of /repo:
   tools/mutants.py FILE.py [-j N] [ID ...]
FILE.py defines M = [(id, [properties], file, old, new), ...]; old occurs once, or
old and new are lists of the same length. Prints for each whether it builds, passes
the stable tests, and what the checks say."""
import concurrent.futures as cf, json, os, runpy, shutil, subprocess, sys, tempfile
args = sys.argv[1:]
j = 3
if "-j" in args:
    k = args.index("-j"); j = int(args[k + 1]); del args[k:k + 2]
M = runpy.run_path(args[0])["M"]
want = args[1:]
ENV = dict(os.environ, GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build",
           GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off")
# the checks as they are now: /verif may be edited meanwhile
VC = tempfile.mkdtemp(prefix="mut-verif-")
shutil.copytree(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), VC, dirs_exist_ok=True,
                ignore=shutil.ignore_patterns(".git", "seeded", "evidence"))
STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
def one(m):
    i, props, file, old, new = m
    d = tempfile.mkdtemp(prefix="mut-")
    try:
        r = d + "/repo"
        subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
        p = os.path.join(r, file)
        s = open(p).read()
        olds, news = ([old], [new]) if isinstance(old, str) else (old, new)
        for o, n in zip(olds, news):
            if s.count(o) != 1:
                return i, "BAD PATTERN (%d)" % s.count(o)
            s = s.replace(o, n)
        open(p, "w").write(s)
        b = subprocess.run(["go", "build", "./..."], cwd=r, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if b.returncode:
            return i, "NO BUILD " + b.stdout.decode()[-300:]
        out = []
        for pid in props:
            c = subprocess.run([sys.executable, VC + "/check.py", pid], env=dict(os.environ, VERIF_REPO=r),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            o = c.stdout.decode(errors="replace")
            out.append("%s %s" % (pid, {0: "MISSED", 1: "caught"}.get(c.returncode, "ERROR " + o[-600:])))
        if not any(o.endswith(" caught") for o in out):
            t = subprocess.run(["go", "test", "-json", "./..."], cwd=r, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            failed = set()
            for ln in t.stdout.decode(errors="replace").splitlines():
                try: x = json.loads(ln)
                except ValueError: continue
                if x.get("Action") == "fail" and x.get("Test"):
                    failed.add(x["Test"])
            fs = [s for s in STABLE if any(s.endswith(f) or s.split("::")[-1] == f or s.split("/")[-1] == f for f in failed)]
            out += ["tests fail: " + ",".join(sorted(failed)[:4]) if fs else "tests ok"]
        return i, "; ".join(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)
with cf.ThreadPoolExecutor(j) as ex:
    fs = {ex.submit(one, m): m for m in M if not want or m[0] in want}
    for f in cf.as_completed(fs):
        print("%-18s %s" % f.result(), flush=True)
shutil.rmtree(VC, ignore_errors=True)
