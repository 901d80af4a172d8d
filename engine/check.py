#!/usr/bin/env python3
"""Decide one property: generate the obligations from /repo's current sources
and the contract files, discharge them, replay counterexamples on the real
code, write the evidence file.  Exit 0 or 1 (see DESIGN.md)."""
import sys, os, copy, json, time, subprocess, shutil, re, hashlib, threading, signal
from concurrent.futures import ThreadPoolExecutor, as_completed
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import ctr

REPO = ctr.REPO
MPI = ["-isystem", "/usr/lib/x86_64-linux-gnu/openmpi/include",
       "-isystem", "/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"]
INC = ["-I", HERE, "-I", os.path.join(REPO, "src"), "-I", os.path.join(HERE, "config"),
       "-I", os.path.join(HERE, "sc-compat")] + MPI
GUARD = "P4EST_VERIF"
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
DIMUNIT = {}

def run(cmd, timeout=None, cwd=None, mem_gb=None, env=None):
    t0 = time.time()
    pre = None
    if mem_gb:
        import resource
        def pre():
            resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * 2**30),) * 2)
    try:
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                             cwd=cwd, start_new_session=True, preexec_fn=pre, env=env)
        try:
            out, _ = p.communicate(timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            out, _ = p.communicate()
            rc = -999
    except FileNotFoundError as e:
        return 127, str(e), 0.0
    return rc, out.decode("utf-8", "replace"), time.time() - t0

class Err(Exception):
    pass

class Work:
    def __init__(self, prop, tier, keep=False):
        self.prop, self.tier = prop, tier
        self.dir = os.path.join(VERIF, ".work", "%s-%d" % (prop, os.getpid()))
        os.makedirs(self.dir, exist_ok=True)
        self.lock = threading.Lock()
        self.units = {}
        self.nat = {}
        self.goals = ctr.load_all(os.path.join(VERIF, "contracts"))

    def path(self, *a):
        return os.path.join(self.dir, *a)

    # -- goto objects -------------------------------------------------------
    def unit(self, name, dim):
        """compile one real source file (or stub) with goto-cc, once"""
        key = (name, dim)
        with self.lock:
            ev = self.units.get(key)
            if ev is None:
                ev = self.units[key] = {"ev": threading.Event(), "out": None, "err": None}
                mine = True
            else:
                mine = False
        if mine:
            try:
                if name.startswith("stub:"):
                    sn, _, cap = name[5:].partition(":")
                    src = os.path.join(VERIF, "stubs", sn + ".c")
                    extra = (["-DVSTORE"] if cap == "typed" else ["-DVCAP=" + cap] if cap else []) + ["-DVCBMC"] + (["-DVDIM3"] if dim == 3 else [])
                else:
                    src = ctr.src_path(name, dim)
                    extra = []
                out = self.path("%s-%d.gb" % (name.replace(":", "_"), dim))
                rc, txt, _ = run(["goto-cc", "-D" + GUARD] + extra + INC +
                                 ["-c", src, "-o", out], timeout=200)
                if rc != 0 or not os.path.exists(out):
                    ev["err"] = "goto-cc %s failed (%d): %s" % (src, rc, txt[-1500:])
                ev["out"] = out
            except Exception as e:       # pragma: no cover
                ev["err"] = repr(e)
            ev["ev"].set()
        ev["ev"].wait()
        if ev["err"]:
            raise Err(ev["err"])
        return ev["out"]

    # -- native library -----------------------------------------------------
    def native_lib(self, fast=False):
        """the real code as a native library; fast: optimized, for the
        enumerated checks, with libsc's and p4est's own assertions active"""
        with self.lock:
            nat = self.nat.get(fast)
            if nat is not None:
                if isinstance(nat, str):
                    return nat
                raise Err("native build failed")
            d = self.path("natf" if fast else "nat")
            os.makedirs(d, exist_ok=True)
            srcs = []
            for f in sorted(os.listdir(os.path.join(REPO, "src"))):
                if f.endswith(".c") and re.match(r"p[468]est|p8est|sc_", f) and \
                   not f.startswith(("p4est_mesh_", "p4est_cubit")):
                    srcs.append(f)
            jobs = []
            with ThreadPoolExecutor(JOBS) as ex:
                for f in srcs:
                    o = os.path.join(d, f[:-2] + ".o")
                    jobs.append((f, o, ex.submit(
                        run, ["gcc", "-w", "-fPIC"] + (FASTFLAGS if fast else SANFLAGS) + INC +
                        ["-c", os.path.join(REPO, "src", f), "-o", o], 200)))
            objs = [o for f, o, j in jobs if j.result()[0] == 0]
            lib = os.path.join(d, "libp4estv.a")
            rc, txt, _ = run(["ar", "rcs", lib] + objs)
            if rc != 0:
                self.nat[fast] = False
                raise Err("native archive: " + txt)
            self.nat[fast] = lib
            return lib

FASTFLAGS = ["-O1", "-g", "-ftrivial-auto-var-init=pattern"]
SANFLAGS = ["-O0", "-g", "-fsanitize=address,undefined", "-fno-sanitize=alignment,shift-base",
            "-fno-sanitize-recover=undefined"]
SOLVERS = {"": [], "minisat": [], "cadical": ["--sat-solver", "cadical"],
           "kissat": ["--external-sat-solver", "kissat"],
           "cvc5": ["--cvc5"], "z3": ["--z3"], "bitwuzla": ["--bitwuzla"]}

class Result:
    def __init__(self, goal, dim):
        self.goal, self.dim = goal, dim
        self.status = "?"         # ok | fail | undecided
        self.n = 0                # obligations
        self.ok = 0               # discharged
        self.failed = []          # (property id, description, clause)
        self.msg = ""
        self.solver_s = 0.0
        self.wall = 0.0
        self.backend = ""
        self.probe = None
        self.gb = None
        self.clauses = []
        self.confirmed = None
        self.replay = None

_defs = None
def def_unit(fn, dim):
    """unit (source file) of /repo that defines the link-level name fn"""
    global _defs
    if _defs is None:
        d = {}
        for f in sorted(os.listdir(os.path.join(REPO, "src"))):
            if f.endswith(".c") and re.match(r"p[468]est_|p[468]est\.c", f):
                txt = open(os.path.join(REPO, "src", f), errors="replace").read()
                for m in re.finditer(r"^(p[468]est_\w+) \(", txt, re.M):
                    d.setdefault(m.group(1), f[:-2])
                for m in re.finditer(r"^(?:const\s+)?(?:int|size_t)\s+(p[468]est_\w+)(?:\[|\s*=)", txt, re.M):
                    d.setdefault(m.group(1), f[:-2])
        inv = {}
        ctr.cname("x", 3)
        for a, b in (ctr._map or {}).items():
            inv.setdefault(b, a)
        _defs = (d, inv)
    d, inv = _defs
    if fn in d:
        return d[fn]
    return d.get(inv.get(fn))

INTRINSIC = re.compile(r"^(nondet_|__CPROVER|__builtin|contract::)|^(malloc|calloc|realloc|free|alloca|mem(cpy|move|set|cmp)|str(len|cmp|ncmp|cpy|ncpy|cat|chr|dup)|abs|labs|exit|abort|fabs|sqrt|vnd_any_index)$")
def undefined(gb):
    rc, txt, _ = run(["goto-instrument", "--list-undefined-functions", gb], timeout=100)
    out = []
    for ln in txt.split("\n"):
        ln = ln.strip()
        if re.match(r"^[A-Za-z_]\w*$", ln) and not INTRINSIC.match(ln):
            out.append(ln)
    return out

def annotated_unit(w, g, unit, dim, name):
    """the source file with loop contracts inserted behind loop headers"""
    d = w.path("ann-" + name)
    os.makedirs(d, exist_ok=True)
    main = os.path.basename(ctr.src_path(unit, dim))
    files = {}
    for f in {unit + ".c", main}:
        p = os.path.join(REPO, "src", f)
        if os.path.exists(p):
            files[f] = open(p, errors="replace").read()
    # from the last loop to the first, so that the numbers stay valid
    for u, fn, n, txt in sorted((x for x in g.inv if x[0] == unit), key=lambda x: -x[2]):
        for f in files:
            t = ctr.annotate(files[f], fn, n, txt)
            if t is not None:
                files[f] = t
                break
        else:
            raise Err("loop %d of %s not found in %s" % (n, fn, main))
    for f, t in files.items():
        open(os.path.join(d, f), "w").write(t)
    out = w.path("ann-%s-%s.gb" % (name, unit))
    pre = w.path("ann-%s.h" % name)
    open(pre, "w").write('#include "vspec.h"\n' + g.prelude)
    rc, txt, _ = run(["goto-cc", "-D" + GUARD, "-DVCBMC"] + (["-DVDIM3"] if dim == 3 else []) +
                     INC + ["-include", pre, "-c", os.path.join(d, main), "-o", out], timeout=200)
    if rc != 0:
        raise Err("annotated %s does not compile: %s" % (main, txt[-1500:]))
    return out

def build_goal(w, g, dim, tag=""):
    name = "%s-%d%s" % (g.name, dim, tag)
    text, lm = ctr.gen_tu(g, dim, True, w.goals)
    src = w.path(name + ".c")
    open(src, "w").write(text)
    ho = w.path(name + ".h.gb")
    extra = ["-D" + GUARD, "-DVCBMC"]
    rc, txt, _ = run(["goto-cc"] + extra + INC + ["-c", src, "-o", ho], timeout=200)
    if rc != 0:
        raise Err("goto-cc harness %s: %s" % (name, txt[-2500:]))
    anu = set(x[0] for x in g.inv)
    objs = [ho] + [w.unit(u, dim) for u in g.units if u not in g.include and u not in anu] + \
        [w.unit("stub:sc_model", dim)]
    objs += [w.unit("stub:" + u, dim) for u in g.stubs]
    for u in sorted(set(x[0] for x in g.inv)):
        objs.append(annotated_unit(w, g, u, dim, name))
    have = set(u for u in g.units) | set(g.include)
    a = w.path(name + ".a.gb")
    ad = w.path(name + ".ad.gb")
    for rounds in range(6):
        rc, txt, _ = run(["goto-cc", "--function", "harness"] + objs + ["-o", a], timeout=200)
        if rc != 0:
            raise Err("goto-cc link %s: %s" % (name, txt[-2500:]))
        rc, txt, _ = run(["goto-instrument", "--drop-unused-functions", a, ad], timeout=100)
        if rc != 0:
            break
        und = undefined(ad)
        new = []
        for u in und:
            x = def_unit(u, dim)
            if x and x not in have and x not in new and u not in g.drop and \
               u not in [ctr.cname(r, dim) for r in g.replace]:
                new.append(x)
        if not new:
            break
        have |= set(new)
        objs += [w.unit(x, dim) for x in new]
    steps = []
    for f in g.drop:
        steps.append(["--remove-function-body", ctr.cname(f, dim)])
    for s in g.subst:
        f, h = s.split(":")
        steps.append(["--replace-calls", "%s:%s" % (ctr.cname(f, dim), h)])
    cur = a
    k = 0
    for s in steps:
        k += 1
        nxt = w.path("%s.s%d.gb" % (name, k))
        rc, txt, _ = run(["goto-instrument"] + s + [cur, nxt], timeout=100)
        if rc != 0:
            raise Err("goto-instrument %s: %s" % (" ".join(s), txt[-1500:]))
        cur = nxt
    dfcc = []
    if g.kind == "fn":
        dfcc += ["--enforce-contract", ctr.cname(g.name, dim)]
    for r in g.replace:
        dfcc += ["--replace-call-with-contract", ctr.cname(r, dim)]
    if g.loops:
        dfcc += ["--apply-loop-contracts"]
    if dfcc:
        nxt = w.path(name + ".i.gb")
        rc, txt, _ = run(["goto-instrument", "--dfcc", "harness"] + dfcc + [cur, nxt], timeout=300)
        if rc != 0:
            raise Err("goto-instrument --dfcc %s: %s" % (name, txt[-2500:]))
        cur = nxt
    nxt = w.path(name + ".d.gb")
    rc, txt, _ = run(["goto-instrument", "--drop-unused-functions", cur, nxt], timeout=100)
    if rc == 0:
        cur = nxt
    und = undefined(cur)
    if und and not dfcc:
        # no silent over- or under-approximation: reaching one is an error
        nxt = w.path(name + ".u.gb")
        rc, txt, _ = run(["goto-instrument", "--generate-function-body", "^(%s)$" % "|".join(und),
                          "--generate-function-body-options", "assert-false-assume-false", cur, nxt], timeout=100)
        if rc != 0:
            raise Err("goto-instrument generate bodies: " + txt[-1500:])
        cur = nxt
    return cur, lm, src

BASEFLAGS = ["--no-malloc-may-fail", "--no-pointer-primitive-check"]

def cbmc_cmd(g, gb, extra):
    cmd = ["cbmc", gb, "--json-ui", "--slice-formula", "--verbosity", "8"] + BASEFLAGS
    fl = []
    nf = set()
    for f in g.flags:
        if f.startswith("-no"):
            nf.add(f[1:])
        else:
            fl.append(f)
    for f in sorted(nf):
        fl.append("--" + f)
    cmd += fl
    cmd += ["--unwind", str(g.unwind or 34)]
    if g.unwindset:
        cmd += ["--unwindset", ",".join(g.unwindset)]
    return cmd + extra

def parse_json(txt):
    try:
        return json.loads(txt)
    except Exception:
        pass
    # cut back to the last complete element
    i = txt.rfind("\n]")
    try:
        return json.loads(txt[:i + 2])
    except Exception:
        return None

def classify(desc, lm, loc, src, clauses):
    line = None
    try:
        if loc.get("file", "").endswith(os.path.basename(src)):
            line = int(loc.get("line", 0))
    except Exception:
        pass
    if line in lm:
        return lm[line]
    m = re.match(r"lemma (\w+)", desc)
    if m:
        return m.group(1)
    return None

def solve(w, g, dim, gb, lm, src, res, timeout):
    order = (g.solver or "minisat").split(",")
    data = None
    for s in order:
        cmd = cbmc_cmd(g, gb, SOLVERS[s])
        rc, txt, dt = run(cmd, timeout=timeout, mem_gb=14)
        res.wall += dt
        res.backend = s
        data = parse_json(txt)
        if rc in (0, 10) and data is not None:
            break
        res.msg = "cbmc/%s rc=%d after %.0fs: %s" % (s, rc, dt, re.sub(r'[\s{}",]+|messageT\w+|STATUS-MESSAGE', " ", txt[-600:]))
        data = None
    if data is None:
        res.status = "undecided"
        return
    st = None
    undef = []
    for el in data:
        if not isinstance(el, dict):
            continue
        m = el.get("messageText", "")
        if el.get("messageType") == "STATUS-MESSAGE" or m:
            mm = re.match(r"Runtime (?:Solver|decision procedure): ([0-9.e+-]+)s", m)
            if mm:
                res.solver_s += float(mm.group(1))
            if "no body for" in m.lower() or "no body for function" in m:
                pass
        if "result" in el:
            st = el["result"]
    if st is None:
        res.status = "undecided"
        res.msg = "no result in verifier output"
        return
    for p in st:
        d = p.get("description", "")
        if d.startswith("VACUITY-PROBE"):
            res.probe = (p["status"] == "FAILURE")
            continue
        res.n += 1
        cl = classify(d, lm, p.get("sourceLocation", {}), src, None)
        if p["status"] == "SUCCESS":
            res.ok += 1
            if cl:
                res.clauses.append(cl)
        elif d == "undefined function should be unreachable":
            undef.append(p["property"].split(".")[0])
        else:
            res.failed.append((p["property"], d, cl, p.get("sourceLocation", {}), p["status"]))
    # after a fatal failure the verifier leaves others undecided
    if any(f[4] == "FAILURE" for f in res.failed):
        res.failed = [f for f in res.failed if f[4] == "FAILURE"]
    if undef and not res.failed:
        res.status = "undecided"
        res.msg = "no body or model for: " + " ".join(sorted(set(undef)))
    elif res.failed and all(f[4] != "FAILURE" for f in res.failed):
        res.status = "undecided"
        res.msg = "verifier status " + res.failed[0][4]
    elif res.failed:
        res.status = "fail"
    elif res.probe is False:
        res.status = "vacuous"
        res.msg = "VACUOUS: the end of the harness is unreachable"
    elif res.n == 0:
        res.status = "vacuous"
        res.msg = "no obligations generated"
    else:
        res.status = "ok"

def get_inputs(g, gb, prop, backend, timeout):
    cmd = cbmc_cmd(g, gb, SOLVERS[backend] + ["--trace", "--property", prop])
    rc, txt, _ = run(cmd, timeout=timeout, mem_gb=14)
    data = parse_json(txt)
    if data is None:
        return None
    ins = []
    for el in data:
        if isinstance(el, dict) and "result" in el:
            for p in el["result"]:
                if p.get("property") == prop and "trace" in p:
                    for stp in p["trace"]:
                        if stp.get("stepType") == "input":
                            v = stp["values"][0]
                            b = v.get("binary")
                            if b is None:
                                dd = v.get("data", "0")
                                try:
                                    val = int(re.sub(r"[^0-9-]", "", dd) or 0)
                                except ValueError:
                                    val = 0
                            else:
                                val = int(b, 2)
                                if b[0] == "1" and len(b) < 64 and v.get("type", "").find("unsigned") < 0:
                                    val -= 1 << len(b)
                            ins.append((stp["inputID"], val & (2**64 - 1)))
    return ins

def native_replay(w, g, dim, ins, tag="", timeout=30):
    """run the generated native harness on the recorded inputs"""
    lib = w.native_lib(g.enum)
    text, _ = ctr.gen_tu(g, dim, False, w.goals)
    base = w.path("rp-%s-%d%s" % (g.name, dim, tag))
    open(base + ".c", "w").write(text)
    san = ["-w"] + (FASTFLAGS if g.enum else SANFLAGS)
    exe = base + ".exe"
    if not os.path.exists(exe):
        rc, txt, _ = run(["gcc"] + san + INC + [base + ".c", os.path.join(HERE, "vnat.c"),
                          "-o", exe, "-Wl,--allow-multiple-definition", lib,
                          "-lsc", "-L/usr/lib/x86_64-linux-gnu/openmpi/lib", "-lmpi", "-lz", "-lm"],
                         timeout=200)
        if rc != 0:
            raise Err("native harness build failed: " + txt[-1500:])
    open(base + ".in", "w").write("".join("%s %x\n" % (n.replace(" ", "_"), v) for n, v in ins))
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0", **({"VND_CATCH": "1"} if g.enum else {}),
               OMPI_ALLOW_RUN_AS_ROOT="1")
    rc, txt, _ = run([exe, base + ".in"], timeout=timeout, cwd=w.dir, env=env)
    if rc == 0 or rc == 4:
        return False, txt[-1500:]
    if rc == -999:
        if g.enum:
            return None, "enumeration not finished within %d s" % timeout
        return True, "native run did not terminate within %d s\n" % timeout + txt[-800:]
    return True, ("exit %d\n" % rc) + txt[-2500:]

def only_unwinding(res):
    return res.status == "fail" and all(
        "unwinding assertion" in f[1] or "recursion unwinding" in f[1] for f in res.failed)

def do_enum(w, g, dim, tier, res):
    """bounded stand-in: the harness runs the real code natively on every case
    of a stated finite set and evaluates the contract on each"""
    t1 = time.time()
    bad, txt = native_replay(w, g, dim, [], timeout=g.timeout or (200 if tier == "quick" else 800))
    res.solver_s = 0.0
    res.backend = "native enumeration"
    m = re.search(r"CASES (\d+)", txt)
    res.n = int(m.group(1)) if m else 0
    if bad is None:
        res.status, res.msg = "undecided", txt
    if bad:
        res.status = "fail"
        m = re.search(r"REPLAY-FAIL (\S+) (.*)", txt)
        d = m.group(2) if m else "abort or crash in the enumerated case"
        res.failed = [(g.name + ".enum", d, m.group(2) if m else None, {}, "FAILURE")]
        res.confirmed = {"obligation": g.name + ".enum", "description": d, "clause": d,
                         "inputs": [], "native_output": txt[-3000:]}
    elif bad is False:
        if res.n < 1 or "REPLAY-OK" not in txt:
            res.status, res.msg = "undecided", "no cases run: " + txt[-300:]
        else:
            res.status, res.ok = "ok", res.n

def do_goal(w, g, dim, tier):
    t0 = time.time()
    res = Result(g, dim)
    if g.enum:
        try:
            do_enum(w, g, dim, tier, res)
        except Exception as e:
            res.status, res.msg = "undecided", str(e)
        res.wall = time.time() - t0
        return res
    try:
        gb, lm, src = build_goal(w, g, dim)
        res.gb = gb
        to = g.timeout or (150 if tier == "quick" else 600)
        solve(w, g, dim, gb, lm, src, res, to)
        if only_unwinding(res):
            # a loop takes more iterations than foreseen: unfold it further
            # before judging (the loop may just be written differently)
            g2 = copy.copy(g)
            g2.unwind = 4 * (g.unwind or 34)
            g2.unwindset = []
            r2 = Result(g2, dim)
            solve(w, g2, dim, gb, lm, src, r2, to)
            if r2.status in ("ok", "vacuous") or (r2.status == "fail" and not only_unwinding(r2)):
                r2.gb = gb
                res = r2
    except Err as e:
        res.status = "undecided"
        res.msg = str(e)
    except Exception as e:
        res.status = "undecided"
        res.msg = "engine: %r" % e
    res.wall = time.time() - t0
    return res

def confirm(w, res, budget=90):
    """try to turn a failed obligation into a failing input of the real code"""
    g, dim = res.goal, res.dim
    if res.confirmed:
        return res.confirmed, ""
    tries = []
    seen = 0
    t0 = time.time()
    if not g.native:
        return None, "no native harness for this obligation"
    # prefer contract clauses, lemmas and aborts over memory checks
    order = sorted(res.failed, key=lambda f: (0 if f[2] else 1 if "abort" in f[1] else 2))
    for prop, desc, cl, loc, _ in order:
        if seen >= 3 or time.time() - t0 > budget:
            break
        seen += 1
        try:
            ins = get_inputs(g, res.gb, prop, res.backend if res.backend in ("minisat", "cadical", "kissat") else "minisat", 120)
        except Exception as e:
            tries.append("no trace: %r" % e)
            continue
        # without inputs every value of the harness is fixed: run it as it is
        try:
            ok, txt = native_replay(w, g, dim, ins)
        except Err as e:
            tries.append(str(e))
            continue
        if ok:
            return {"obligation": prop, "description": desc, "clause": cl,
                    "inputs": [[n, ("%x" % v)] for n, v in ins], "native_output": txt}, ""
        tries.append("%s [%s]: %s" % (prop, desc, txt))
    return None, "\n".join(tries)

def known_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            m = re.match(r"^finding: property=(\S+) goal=(\S+) dim=(\d) clause=(\S+)\s+(.*)$", ln)
            if m:
                out.append(m.groups())
    return out

def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--goal", default=None)
    ap.add_argument("--dim", type=int, default=None)
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--solver", default=None)
    ap.add_argument("--timeout", type=int, default=None)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = "thorough" if a.tier == "thorough" else "quick"
    w = Work(a.property, tier)
    try:
        rc = check(w, a, tier, seed, t0)
    finally:
        if not a.keep:
            shutil.rmtree(w.dir, ignore_errors=True)
    sys.exit(rc)

def check(w, a, tier, seed, t0):
    prop = a.property
    todo = []
    for g in w.goals:
        if a.goal:
            if g.name != a.goal:
                continue
        elif prop not in g.props:
            continue
        elif g.only_fallback:
            continue
        if g.tier == "thorough" and tier != "thorough" and not a.goal:
            continue
        for d in g.dims:
            if a.dim and a.dim != d:
                continue
            if g.tier == "thorough%d" % d and tier != "thorough" and not a.goal:
                continue
            if a.solver:
                g.solver = a.solver
            if a.timeout:
                g.timeout = a.timeout
            todo.append((g, d))
    # long goals first
    times = {}
    tf = os.path.join(HERE, "times.json")
    if os.path.exists(tf):
        times = json.load(open(tf))
    todo.sort(key=lambda t: -times.get("%s-%d" % (t[0].name, t[1]), 3.0))
    results = []
    with ThreadPoolExecutor(JOBS) as ex:
        futs = {ex.submit(do_goal, w, g, d, tier): (g, d) for g, d in todo}
        for f in as_completed(futs):
            r = f.result()
            results.append(r)
            if a.v:
                print("%-10s %-55s %dD %4d/%4d %6.1fs (solver %.1fs, %s) %s" % (
                    r.status, r.goal.name, r.dim, r.ok, r.n, r.wall, r.solver_s, r.backend,
                    (r.msg[-700:] if r.status in ("undecided", "vacuous") else "")), flush=True)
                if r.status == "fail":
                    for fp in r.failed[:8]:
                        print("      FAILED %s | %s | clause=%s | %s:%s" % (
                            fp[0], fp[1], fp[2], os.path.basename(fp[3].get("file", "?")), fp[3].get("line", "?")), flush=True)
    results.sort(key=lambda r: (r.goal.name, r.dim))
    viol, undec, known = [], [], []
    kf = known_findings()
    rdir = os.path.join(VERIF, "replays", prop)
    fails = [r for r in results if r.status in ("fail", "vacuous")]
    undecr = [r for r in results if r.status == "undecided"]
    # a goal that could not be decided is handed to its bounded search
    extra = []
    byname = {g.name: g for g in w.goals}
    bad = fails + undecr
    nconf = 0
    for r in bad:
        g = r.goal
        conf, note = None, ""
        if r.status == "fail" and nconf < 3:
            conf, note = confirm(w, r)
        sr = r
        if conf is None and g.fallback and nconf < 3:
            fr = do_goal(w, byname[g.fallback], r.dim, tier)
            extra.append(fr)
            if fr.status == "fail":
                conf, n2 = confirm(w, fr)
                note += "\n[bounded search %s] %s" % (g.fallback, n2)
                sr = fr if conf else r
                if r.status == "undecided" and conf is None:
                    note += "\nbounded search failed without a confirmed input"
            elif r.status == "undecided":
                r.msg += " | bounded search %s: %s" % (g.fallback, fr.status)
        if conf is None and g.inv and r.status == "fail" and extra and \
                extra[-1].goal.name == g.fallback and extra[-1].dim == r.dim and extra[-1].status == "ok":
            # the loop contract no longer fits the code, but the same contract
            # holds within the bound of the stand-in: not a violation
            r.status = "undecided"
            r.msg = "loop contract does not fit the current code (%s); contract discharged with the loop unfolded (%s)" % (
                r.failed[0][0], byname[g.fallback].bound)
        if conf is None and only_unwinding(r):
            r.status = "undecided"
            r.msg = "unwinding bound too small: " + r.failed[0][0]
        if r.status == "undecided" and conf is None:
            undec.append(r)
            continue
        if conf:
            nconf += 1
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, "%s-%dd.json" % (g.name, r.dim))
        json.dump({"property": prop, "goal": g.name, "kind": g.kind, "dim": r.dim,
                   "contract_file": g.file,
                   "failed_obligations": [{"id": f[0], "description": f[1], "clause": f[2],
                                           "location": f[3]} for f in r.failed],
                   "confirmed_on_real_code": conf, "note": note, "message": r.msg,
                   "verifier": "cbmc %s" % r.backend}, open(rp, "w"), indent=1)
        # known findings
        cls = set((f[2] or f[0]) for f in r.failed)
        kn = [k for k in kf if k[0] == prop and k[1] == g.name and int(k[2]) == r.dim]
        if kn and cls and cls <= set(k[3] for k in kn):
            for k in kn:
                known.append(k)
            continue
        viol.append((r, rp, conf))
    allr = results + extra
    wall = time.time() - t0
    if not a.goal:
        write_evidence(prop, tier, seed, w, results, extra, viol, undec, wall)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[4]))
    for r in undec:
        print("UNDECIDED property=%s goal=%s dim=%d: %s" % (prop, r.goal.name, r.dim, r.msg[-900:].replace("\n", " ")))
    nob = sum(r.n for r in results)
    nok = sum(r.ok for r in results)
    print("property=%s goals=%d obligations=%d discharged=%d solver_s=%.1f wall_s=%.1f" % (
        prop, len(results), nob, nok, sum(r.solver_s for r in allr), wall))
    if viol:
        # confirmed ones first
        viol.sort(key=lambda v: 0 if v[2] else 1)
        if any(v[2] for v in viol):
            viol = [v for v in viol if v[2]]
        for r, rp, conf in viol:
            f = r.failed[0] if r.failed else ("-", r.msg, None, {})
            print("  failed obligation: %s %dD %s (%s)%s" % (
                r.goal.name, r.dim, f[1], f[0], " confirmed on the real code" if conf else ""))
            print("VIOLATION property=%s replay=%s%s" % (prop, rp, "" if conf else " no-failing-input-found"))
        return 1
    return 0

def write_evidence(prop, tier, seed, w, results, extra, viol, undec, wall):
    props = json.load(open(os.path.join(VERIF, "engine", "props.json")))
    meta = props.get(prop, {})
    pr = [r for r in results if r.goal.kind != "bounded" and not r.goal.bound]
    bd = [r for r in results if r.goal.kind == "bounded" or r.goal.bound]
    fns = sorted({"%s" % ctr.cname(r.goal.name, r.dim) for r in pr if r.goal.kind == "fn" and r.status == "ok"})
    lem = sorted({"%s/%dD" % (r.goal.name, r.dim) for r in pr if r.goal.kind == "lemma" and r.status == "ok"})
    back = {}
    for r in results:
        back[r.backend or "none"] = back.get(r.backend or "none", 0) + r.ok
    rep = sorted({ctr.cname(x, r.dim) for r in results for x in r.goal.replace})
    prov = {ctr.cname(g.name, d) for g in w.goals if g.kind == "fn" for d in g.dims}
    trusted = ["CBMC 6.11 (goto-cc, goto-instrument --dfcc, cbmc) and its SAT/SMT back ends",
               "specification vocabulary engine/vspec.h and contract files contracts/*.ctr",
               "stubs/sc_model.c, stubs/sc_array.c, stubs/sc_list.c: models of libsc functions (no libsc source in the sandbox; "
               "compared with the installed library by engine/validate_stubs.py)"]
    if any(r.goal.enum for r in results):
        trusted.append("stubs/vmpi.c (simulated message passing) and stubs/vforest.c (oracle on the grid of finest cells) for the native enumerations; "
                       "these run the code compiled by gcc with the installed libsc")
    assume = list(meta.get("assumptions", []))
    for r in results:
        if r.goal.note and r.goal.note not in assume:
            assume.append(r.goal.note)
    cov = {
        "obligations": sum(r.n for r in pr),
        "discharged": sum(r.ok for r in pr),
        "checker_cmd": "python3 engine/check.py --property %s --tier %s" % (prop, tier),
        "trusted_base": trusted,
        "functions_under_contract": fns,
        "lemmas": lem,
        "callees_used_by_contract": rep,
        "callee_contracts_proved_elsewhere": sorted(x for x in rep if x in prov),
        "bounded_checks": [{"name": r.goal.name, "dim": r.dim, "bound": r.goal.bound,
                            ("cases" if r.goal.enum else "obligations"): r.n, "discharged": r.ok, "status": r.status,
                            "backend": r.backend} for r in bd + extra],
        "backends": back,
        "solver_seconds": round(sum(r.solver_s for r in results), 2),
        "reachability_probes_hit": sum(1 for r in results if r.probe),
        "undecided": ["%s/%dD" % (r.goal.name, r.dim) for r in undec],
        "samples": [{"goal": r.goal.name, "dim": r.dim, "obligations": r.n,
                     "clauses": sorted(set(r.clauses))[:12], "solver_s": round(r.solver_s, 2)}
                    for r in results[:400]],
        "explanation": meta.get("explanation", "each goal is one function contract or lemma over the real code; all obligations generated from /repo's current sources"),
    }
    level = meta.get("level", "proof")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level,
          "coverage": cov, "assumptions": assume, "wall_s": round(wall, 2),
          "violations": len(viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)

if __name__ == "__main__":
    main()
