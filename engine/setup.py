#!/usr/bin/env python3
"""Setup: nothing to install; checks that the tools are there and compares the
libsc models with the installed library."""
import subprocess, sys, os, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
for t in ("cbmc", "goto-cc", "goto-instrument", "gcc", "z3", "kissat"):
    if not shutil.which(t):
        print("setup: missing tool", t)
for d in ("evidence", "replays", ".work"):
    os.makedirs(os.path.join(os.path.dirname(HERE), d), exist_ok=True)
p = os.path.join(HERE, "validate_stubs.py")
if os.path.exists(p):
    sys.exit(subprocess.call([sys.executable, p]))
