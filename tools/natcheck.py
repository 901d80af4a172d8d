#!/usr/bin/env python3
"""natcheck.py [PROPERTY]: build and run the native harness of every goal with
inputs that are all zero and a few random ones: the harness must build, and must
not report a violation on the unchanged tree (assumptions may stop it)."""
import os, sys, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
import check, ctr
from concurrent.futures import ThreadPoolExecutor
w = check.Work("nat", "quick")
w.native_lib()
def one(t):
    g, d = t
    try:
        r = check.native_replay(w, g, d, [])
        out = []
        if r[0] is not False:
            out.append((g.ctrfile if hasattr(g, "ctrfile") else "", g.name, d, r[0], r[1][-400:]))
        return out
    except Exception as e:
        return [("", g.name, d, "exc", repr(e)[-400:])]
todo = [(g, d) for g in w.goals for d in g.dims if len(sys.argv) < 2 or sys.argv[1] in g.props]
with ThreadPoolExecutor(8) as ex:
    for r in ex.map(one, todo):
        for x in r:
            print(*x, flush=True)
print(len(todo), "harnesses")
import shutil
shutil.rmtree(w.dir, ignore_errors=True)
