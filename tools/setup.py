#!/usr/bin/env python3
# Checks that the tools the checks need are there, and warms the Go build cache.
import os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.argv = ["setup"]
sys.path.insert(0, V)
import check
for t in ("go", "java"):
    assert shutil.which(t, path=check.goenv()["PATH"]), t
d = tempfile.mkdtemp(prefix="verif-setup-")
try:
    c = check.Ctx("setup", d)
    for n in sorted(os.listdir(V + "/harness/cmd")):
        try:
            check.go_build(c, "./cmd/" + n, os.path.join(d, n))
        except check.CheckError as e:
            print(e)
finally:
    shutil.rmtree(d, ignore_errors=True)
