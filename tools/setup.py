#!/usr/bin/env python3
"""Warms the build cache: compiles the workers once (the checks rebuild them from the current tree)."""
import os, subprocess, sys, tempfile, shutil
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.argv = ["setup"]
src = open(os.path.join(here, "run.py")).read().rsplit("\nmain()", 1)[0]
g = {"__name__": "setup", "__file__": os.path.join(here, "run.py")}
exec(compile(src, "run.py", "exec"), g)
d = tempfile.mkdtemp(prefix="verif-setup-")
try:
    for v in ("plain", "yield", "race"):
        print(v, g["build"](d, v)[1])
finally:
    shutil.rmtree(d, ignore_errors=True)
r = subprocess.run(["go", "test", "./ref"], cwd=os.path.join(here, "harness"), env=g["goenv"]())
sys.exit(r.returncode)
