"""Creates seeded/<id>/ from a bug description file (python): variables
ID PROP EDITS=[(file, old, new)] NEEDS BREAKS DEMO (C text) and optional DEMO3 (the same C file
is compiled for 2D, and with -DD3 for 3D if D3=1)."""
import sys, os, json, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = """#!/bin/bash
# cwd: the repository, after the build
set -e
R=$PWD
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -f "$T/demo"; rmdir "$T"' EXIT
gcc -g -w -DSC_DLL_PUBLIC= %s -I"$R/src" -I"$R/_build/p4est/include" \\
  -isystem /usr/lib/x86_64-linux-gnu/openmpi/include "$D/demo.c" "$R/_build/p4est/libp4est.a" \\
  -o "$T/demo" -L/usr/lib/x86_64-linux-gnu/openmpi/lib -lsc -lmpi -lz -lm
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
timeout 120 "$T/demo"
"""
HEAD = """#ifdef D3
#include <p4est_to_p8est.h>
#include <p8est_bits.h>
#include <p8est_extended.h>
#else
#include <p4est_bits.h>
#include <p4est_extended.h>
#endif
#include <stdio.h>
#include <stdlib.h>
#define CHECK(c) do { if (!(c)) { printf ("FAILED line %d: %s\\n", __LINE__, #c); exit (1); } } while (0)
"""
def mk(b):
    d = os.path.join(V, "seeded", b["ID"])
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    diff = ""
    byfile = {}
    for f, old, new in b["EDITS"]:
        byfile.setdefault(f, []).append((old, new))
    for f, eds in byfile.items():
        s = open("/repo/" + f).read()
        o = s
        for old, new in eds:
            if s.count(old) != 1:
                print(b["ID"], "text occurs %d times: %r" % (s.count(old), old)); sys.exit(1)
            s = s.replace(old, new)
        for k, x in (("a", o), ("b", s)):
            p = os.path.join(t, k, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").write(x)
        diff += subprocess.run(["diff", "-u", "a/" + f, "b/" + f], cwd=t, capture_output=True, text=True).stdout
    shutil.rmtree(t)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(SH % ("-DD3" if b.get("D3") else ""))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.c"), "w").write((b.get("HEAD") or HEAD) + b["DEMO"])
    json.dump({"property": b["PROP"], "needs": b["NEEDS"], "what_it_breaks": b["BREAKS"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
for f in sys.argv[1:]:
    b = {}
    exec(open(f).read(), b)
    for x in b["BUGS"]:
        mk(x)
        print("made", x["ID"])
