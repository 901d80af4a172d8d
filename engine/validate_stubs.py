#!/usr/bin/env python3
"""Compare stubs/sc_model.c, sc_array.c and sc_list.c with the installed libsc on sampled arguments."""
import os, sys, subprocess, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import check
def main():
    V = check.VERIF
    d = tempfile.mkdtemp(prefix="vstub-", dir=os.path.join(V, ".work") if os.path.isdir(os.path.join(V, ".work")) else None)
    try:
        objs = []
        for m in ("sc_model", "sc_array", "sc_list"):
            o = os.path.join(d, m + ".o")
            subprocess.check_call(["gcc", "-O1", "-w", "-DVNATIVE_STUBS", "-D__CPROVER_assert(c,m)=((void)0)", "-D__CPROVER_assume(c)=((void)0)"]
                                  + check.INC + ["-c", os.path.join(V, "stubs", m + ".c"), "-o", o])
            syms = [l.split()[-1] for l in subprocess.check_output(["nm", "-g", "--defined-only", o], text=True).splitlines()]
            subprocess.check_call(["objcopy"] + sum([["--redefine-sym", "%s=m_%s" % (s, s)] for s in syms], []) + [o])
            objs.append(o)
        exe = os.path.join(d, "v")
        subprocess.check_call(["gcc", "-O1", "-w"] + check.INC + [os.path.join(HERE, "validate_stubs.c"), os.path.join(HERE, "validate_arrays.c")]
                              + objs + ["-o", exe, "-lsc", "-L/usr/lib/x86_64-linux-gnu/openmpi/lib", "-lmpi", "-lz", "-lm"])
        return subprocess.call([exe, os.environ.get("VERIF_SEED", "1")])
    finally:
        shutil.rmtree(d, ignore_errors=True)
sys.exit(main())
