#!/usr/bin/env python3
"""Plants a bug:  edit /repo, write the demonstration as a Go main program, then
   tools/plant.py ID PROPERTY "needs" "what it breaks" demo.go (or a directory with demo.sh)
takes the working-tree diff, confirms it (builds, stable tests pass, demo fails
with it and passes without), stores it in seeded/ID, runs the check of PROPERTY
against it and restores /repo.
   tools/plant.py --run ID...   runs the checks against stored bugs again."""
import json, os, shutil, subprocess, sys
V = "/verif"
def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def clean():
    sh("git", "-C", "/repo", "checkout", "--", ".")
def stable():
    sh("bash", "/opt/vp/test.sh", "/tmp/plant-out.json")
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    got = json.load(open("/tmp/plant-out.json"))
    passed = set(got.get("passed", []))
    return [t for t in base if t not in passed]
def demo(d):
    r = sh("bash", d + "/demo.sh", cwd="/repo", timeout=300)
    return r.returncode, r.stdout.decode(errors="replace")[-1500:]
def detect(pid):
    r = sh("python3", V + "/check.py", pid, cwd=V)
    o = r.stdout.decode(errors="replace")
    return r.returncode, "\n".join(l[:300] for l in o.splitlines()[:3] + o.splitlines()[-1:])
if sys.argv[1] == "--run":
    for i in sys.argv[2:]:
        d = V + "/seeded/" + i
        m = json.load(open(d + "/meta.json"))
        r = sh("git", "-C", "/repo", "apply", d + "/patch.diff")
        if r.returncode:
            print(i, "DOES NOT APPLY", r.stdout.decode()); continue
        try:
            rc, o = detect(m["property"])
            print(i, m["property"], "CAUGHT" if rc == 1 else "MISSED rc=%d" % rc)
            if rc not in (0, 1): print(o)
        finally:
            clean()
    sys.exit()
i, prop, needs, what, main = sys.argv[1:6]
d = V + "/seeded/" + i
diff = sh("git", "-C", "/repo", "diff").stdout
if not diff.strip(): sys.exit("no diff in /repo")
try:
    r = sh("bash", "/opt/vp/build.sh")
    if r.returncode: sys.exit("does not build:\n" + r.stdout.decode())
    f = stable()
    if f: sys.exit("stable tests fail: %s" % f[:10])
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "wb").write(diff)
    if os.path.isdir(main):  # demo.sh and what it needs
        for n in os.listdir(main): shutil.copy(main + "/" + n, d + "/" + n)
    else:
        shutil.copy(main, d + "/main.go.txt")
        shutil.copy(V + "/tools/demo.sh", d + "/demo.sh")
    json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + "/meta.json", "w"), indent=1)
    rc, o = demo(d)
    if rc == 0:
        print(o); shutil.rmtree(d); sys.exit("demo passes WITH the bug")
    print("with bug: demo rc=%d: %s" % (rc, o[-300:]))
    rc, out = detect(prop)
    print(out); print("==> CHECK", "CAUGHT" if rc == 1 else "MISSED rc=%d" % rc)
finally:
    clean()
rc, o = demo(d)
if rc != 0:
    print(o); shutil.rmtree(d); sys.exit("demo FAILS without the bug (rc=%d)" % rc)
print("planted", i)
