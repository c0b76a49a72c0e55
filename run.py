#!/usr/bin/env python3
"""run.py PROPERTY TIER: decides one property by symbolic execution of /repo's current code.

Every harness of the property is compiled with the repository's sources to LLVM bitcode and run by build/irsym,
which explores every feasible path and asks Z3 about every symbolic branch, address and assertion.  A
counterexample is replayed natively against the unmodified tree; only one that fails there is a VIOLATION."""
import sys, os, json, glob, subprocess, shutil, time, re, hashlib, threading
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "harness"))
import specs

CXXSTD = ["-std=c++0x", "-include", "cstdint", "-include", "algorithm", "-w"]
IRFLAGS = ["-O2", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fno-math-errno", "-gline-tables-only", "-emit-llvm", "-c"]
ASAN = ["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern"]
PLAIN = ["-O3", "-g"]
CAP = {"quick": 420, "thorough": 840}

def sh(cmd, timeout=None, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)
    except subprocess.TimeoutExpired as e:
        class R: pass
        r = R(); r.returncode = -999; r.stdout = e.stdout or b""; r.stderr = e.stderr or b""
        return r

class Fail(Exception): pass

def shadow(work):
    """A copy of the sources with the 30-million-bucket default tables reduced (see DESIGN.md, bounds)."""
    dst = os.path.join(work, "src")
    for root, dirs, files in os.walk(REPO):
        dirs[:] = [d for d in dirs if not d.startswith((".", "_"))]
        for f in files:
            if f.endswith((".hpp", ".h", ".cc", ".c", ".cpp")):
                p = os.path.join(root, f); q = os.path.join(dst, os.path.relpath(p, REPO))
                os.makedirs(os.path.dirname(q), exist_ok=True)
                s = open(p, errors="surrogateescape").read()
                s = re.sub(r"\bResort1 = 128\b", "Resort1 = 2", re.sub(r"\b30000001\b", "37", s))
                open(q, "w", errors="surrogateescape").write(s)
    return dst

class Harness:
    def __init__(self, prop, spec, tier, work):
        self.prop, self.spec, self.tier = prop, spec, tier
        self.name = spec["name"]
        t = dict(spec.get("thorough", {})) if tier == "thorough" else {}
        self.defs = dict(spec.get("defs", {})); self.defs.update(t.get("defs", {}))
        self.time = t.get("time", spec.get("time", 300))
        self.opt = dict(spec.get("opt", {})); self.opt.update(t.get("opt", {}))
        self.srcs = []
        for p in spec.get("srcs", []):	# patterns, without the files that hold a main or tests
            for f in sorted(glob.glob(os.path.join(REPO, p))):
                b = os.path.basename(f)
                if "*" in p and (b == "testing.cc" or b.startswith(("test", "bench")) or re.search(r"^(int\s+)?main\s*\(", open(f, errors="replace").read(), re.M)): continue
                self.srcs.append(os.path.relpath(f, REPO))
        self.dir = os.path.join(work, self.name); os.makedirs(self.dir, exist_ok=True)
        self.work = work
        self.native = {}
    def dflags(self):
        return ["-D%s=%s" % (k, v) for k, v in sorted(self.defs.items())]
    def lang(self, f):
        return ["clang"] if f.endswith(".c") else ["clang++"] + CXXSTD
    def bitcode(self, root, pool):
        jobs = []
        extra = self.spec.get("flags", [])
        def cc(src, out, defs):
            r = sh(self.lang(src) + IRFLAGS + extra + defs + ["-I" + root, "-I" + os.path.join(HERE, "engine"), "-I" + os.path.join(HERE, "harness"), src, "-o", out], timeout=600)
            if r.returncode: raise Fail("cannot compile %s: %s" % (src, r.stderr.decode()[-1500:]))
            return out
        outs = [os.path.join(self.dir, "h.bc")]
        jobs.append(pool.submit(cc, os.path.join(HERE, "harness", self.spec["src"]), outs[0], self.dflags()))
        ddefs = self.dflags() if self.spec.get("srcdefs") else []
        key = hashlib.md5(repr((ddefs, extra)).encode()).hexdigest()[:8]
        for s in self.srcs:
            out = os.path.join(self.work, "bc-%s-%s.bc" % (s.replace("/", "_"), key))
            with LOCK:
                if out not in SRCJOBS:
                    SRCJOBS[out] = pool.submit(cc, os.path.join(root, s), out, ddefs)
            jobs.append(SRCJOBS[out]); outs.append(out)
        m = os.path.join(self.work, "models.bc")
        with LOCK:
            if m not in SRCJOBS:
                def mk():
                    r = sh(["clang", "-O2", "-fno-builtin", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-emit-llvm", "-c", os.path.join(HERE, "engine", "models.c"), "-o", m])
                    if r.returncode: raise Fail(r.stderr.decode())
                    return m
                SRCJOBS[m] = pool.submit(mk)
        jobs.append(SRCJOBS[m]); outs.append(m)
        m2 = os.path.join(self.work, "stdinst.bc")
        with LOCK:
            if m2 not in SRCJOBS: SRCJOBS[m2] = pool.submit(cc, os.path.join(HERE, "engine", "stdinst.cc"), m2, [])
        jobs.append(SRCJOBS[m2]); outs.append(m2)
        return jobs, outs
    def link(self, outs):
        bc = os.path.join(self.dir, "all.bc")
        r = sh(["llvm-link-18"] + outs + ["-o", bc])
        if r.returncode: raise Fail("llvm-link: " + r.stderr.decode()[-1500:])
        if self.spec.get("opt_passes"):
            r = sh(["opt-18", "-passes=" + self.spec["opt_passes"], bc, "-o", bc])
            if r.returncode: raise Fail("opt: " + r.stderr.decode()[-1500:])
        return bc
    def build_native(self, kind, root):
        key = (kind, root)
        if key in self.native: return self.native[key]
        exe = os.path.join(self.dir, "native-%s-%s" % (kind, "repo" if root == REPO else "shadow"))
        flags = ASAN if kind == "asan" else PLAIN
        dd = self.dflags()
        extra = self.spec.get("flags", [])
        objs = []
        def cc(src, defs, out):
            r = sh(self.lang(src) + flags + extra + defs + ["-I" + root, "-I" + os.path.join(HERE, "engine"), "-I" + os.path.join(HERE, "harness"), "-c", src, "-o", out], timeout=600)
            if r.returncode: raise Fail("native build of %s failed: %s" % (src, r.stderr.decode()[-1500:]))
            return out
        todo = [(os.path.join(HERE, "harness", self.spec["src"]), dd), (os.path.join(HERE, "engine", "native.cc"), [])]
        todo += [(os.path.join(root, s), dd if self.spec.get("srcdefs") else []) for s in self.srcs]
        with ThreadPoolExecutor(8) as p:
            js = [p.submit(cc, s, d, exe + ".%d.o" % i) for i, (s, d) in enumerate(todo)]
            objs = [j.result() for j in js]
        r = sh(["clang++"] + (["-fsanitize=address"] if kind == "asan" else []) + objs + ["-o", exe, "-lm"], timeout=600)
        if r.returncode: raise Fail("native link failed: " + r.stderr.decode()[-1500:])
        for o in objs: os.unlink(o)
        self.native[key] = exe
        return exe
    def replay(self, kind, root, cex):
        """None: the property holds on this input; a string: how it fails."""
        exe = self.build_native(kind, root)
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:malloc_fill_byte=171:max_malloc_fill_size=100000000:allocator_may_return_null=1:abort_on_error=0:exitcode=98:handle_segv=1:handle_sigfpe=1:allow_user_segv_handler=1",
                   MALLOC_PERTURB_="84")
        if kind == "asan": env["SYM_NOSIG"] = "1"
        lim = ["prlimit", "--stack=67108864", "--core=0"] + (["--as=6000000000"] if kind == "plain" else [])
        scratch = os.path.join(self.dir, "cwd"); os.makedirs(scratch, exist_ok=True)
        r = sh(lim + [exe, cex], timeout=self.spec.get("replay_timeout", 20), env=env, stdin=subprocess.DEVNULL, cwd=scratch)
        err = r.stderr.decode(errors="replace")
        if r.returncode == 0: return None, err
        if r.returncode == -999: return "no result after %d s" % self.spec.get("replay_timeout", 20), err
        if r.returncode in (77, 78): return None, err
        m = re.search(r"REPLAY-VIOLATION: (.*)", err) or re.search(r"ERROR: AddressSanitizer: ([^\n]*)", err)
        return (m.group(1) if m else "exit status %d" % r.returncode), err
    def run_engine(self, bc, tlimit, procs):
        st = os.path.join(self.dir, "stats.json")
        if os.path.exists(st): os.unlink(st)
        cmd = [os.path.join(HERE, "build", "irsym"), bc, "--out", st, "--cexdir", self.dir, "--time", str(tlimit), "--procs", str(procs)]
        for k, v in self.opt.items(): cmd += ["--" + k, str(v)]
        r = sh(cmd, timeout=tlimit + 120, cwd=self.dir)
        self.log = (r.stderr + r.stdout).decode(errors="replace")
        if not os.path.exists(st): raise Fail("the executor gave no result (%s): %s" % (r.returncode, self.log[-1500:]))
        self.stats = json.load(open(st))
        return self.stats

LOCK = threading.Lock(); SRCJOBS = {}

def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    only = sys.argv[3] if len(sys.argv) > 3 else None
    t0 = time.time()
    if sh(["make", "-s", "-C", os.path.join(HERE, "engine")], timeout=1500).returncode: print("cannot build the executor"); return 2
    spec = specs.SPECS[prop]
    work = os.path.join(HERE, "build", "run", "%s-%s" % (prop, tier))
    shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    root = shadow(work)
    hs = [Harness(prop, s, tier, work) for s in spec["harnesses"] if not (s.get("only") and s["only"] != tier) and not (only and s["name"] != only)]
    n = len(hs)
    pool = ThreadPoolExecutor(8)
    for h in hs: h.jobs, h.outs = h.bitcode(root, pool)
    errors, violations, unconfirmed, notes = [], [], [], []
    conc = min(n, spec.get("conc", 3)); procs = {1: 8, 2: 5, 3: 4}.get(conc, 3)
    known = {k["id"]: k for k in json.load(open(os.path.join(HERE, "known-findings.json")))["findings"] if k["property"] == prop and k["status"] == "known"}
    seenknown = {}
    samples = []; validated = [0]
    def one(h):
        for j in h.jobs: j.result()
        bc = h.link(h.outs)
        nat = pool.submit(h.build_native, "asan", REPO) if not h.spec.get("nosample") else None
        left = CAP[tier] - (time.time() - t0)
        st = h.run_engine(bc, max(10, min(h.time, left)), procs)
        if nat: nat.result()
        return st
    def judge(h):
        st = h.stats
        # counterexamples
        for i, msg in enumerate(st["violations"]):
            cex = os.path.join(h.dir, "cex%d.txt" % i)
            how = None; where = None
            for kind in ("asan", "plain"):
                for rt in (REPO, root):
                    how, err = h.replay(kind, rt, cex)
                    if how:
                        where = (kind, "the tree" if rt == REPO else "the tree with reduced default table sizes"); break
                if how: break
            if how:
                keep = os.path.join(HERE, "build", "cex", "%s-%s-%d.txt" % (prop, h.name, i))
                os.makedirs(os.path.dirname(keep), exist_ok=True)
                with open(keep, "w") as f:
                    f.write("# property %s, harness %s (%s) %s\n# solver: %s\n# native replay (%s, %s): %s\n" % (prop, h.name, h.spec["src"], " ".join(h.dflags()), msg, where[0], where[1], how))
                    f.write(open(cex).read())
                    f.write("# --- native output\n" + "".join("# " + l + "\n" for l in err.splitlines()[:40]))
                violations.append((h.name, msg, how, keep))
            else:
                unconfirmed.append({"harness": h.name, "solver": msg, "native": "not reproduced"})
        # paths that ended well must end well natively, too
        for f in sorted(os.listdir(h.dir)):
            if not re.match(r"sample\d+\.txt$", f) or h.spec.get("nosample"): continue
            how, err = h.replay("asan", REPO, os.path.join(h.dir, f))
            if how:
                how2, err = h.replay("asan", REPO, os.path.join(h.dir, f))
                if how2:
                    keep = os.path.join(HERE, "build", "cex", "%s-%s-%s" % (prop, h.name, f))
                    os.makedirs(os.path.dirname(keep), exist_ok=True)
                    open(keep, "w").write("# native replay of a path witness fails: %s\n" % how + open(os.path.join(h.dir, f)).read() + "".join("# " + l + "\n" for l in err.splitlines()[:40]))
                    violations.append((h.name, "path witness", how, keep))
            elif "REPLAY-DIVERGED" in err or "REPLAY-INFEASIBLE" in err:
                notes.append("%s: native run of %s diverged from the symbolic path" % (h.name, f))
            else:
                validated[0] += 1
                if len(samples) < 12:
                    samples.append({"harness": h.name, "inputs": " ".join(l.strip().replace(" = ", "=") for l in open(os.path.join(h.dir, f)) if not l.startswith("#"))[:600], "outcome": "path completed; native run agrees"})
        for e in st["engine_errors"]: errors.append("%s: %s" % (h.name, e))
        for fid in st["findings"]:
            if fid in known: seenknown[fid] = known[fid]
            else: violations.append((h.name, "finding " + fid, "condition reached", os.path.join(h.dir, "stats.json")))
        miss = [c for c in h.spec.get("cover", []) if c not in st["covered"]]
        h.missing = miss
    try:
        with ThreadPoolExecutor(conc) as ex:
            fs = [ex.submit(one, h) for h in hs]
            for f in fs: f.result()
        for h in hs: judge(h)
    except Fail as e:
        print("ERROR: %s" % e)
        return 2
    tot = lambda k: sum(h.stats[k] for h in hs)
    complete = all(not h.stats["stopped"] and not h.stats["abnormal"] and not h.stats["unknown"] and not h.stats["engine_errors"] and not h.stats["ended"]["cut"] for h in hs)
    fns = sorted({f for h in hs for f in h.stats["functions"]})
    repofns = [f for f in fns if not f.startswith(("std::", "boost::", "void std::", "__gnu", "void boost::", "bool std::", "sym_", "str", "mem"))]
    per = [{"harness": h.name, "bounds": h.spec.get("bounds", "") , "defines": h.defs, "paths": h.stats["paths"], "ended": {k: v for k, v in h.stats["ended"].items() if v}, "forks": h.stats["forks"], "queries": h.stats["queries"], "sat": h.stats["sat"], "unsat": h.stats["unsat"], "unknown": h.stats["unknown"], "solver_s": round(h.stats["solver_s"], 2), "wall_s": h.stats["wall"],
            "assertions_checked": h.stats["asserts"], "assertions_decided_by_solver": h.stats["symbolic_asserts"], "ir_steps": h.stats["steps"], "symbolic_addresses": h.stats["symbolic_addresses"], "values_split": h.stats["concretised"], "reached": h.stats["covered"], "not_reached": h.missing,
            "complete": not h.stats["stopped"] and not h.stats["abnormal"] and not h.stats["unknown"] and not h.stats["engine_errors"]} for h in hs]
    if not samples: samples.append({"harness": hs[0].name, "note": "no completed path was replayed"})
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": spec.get("level", "model_checking"),
          "coverage": {"states": tot("paths"), "transitions": tot("steps"), "traces_validated_against_impl": validated[0], "samples": samples, "exhaustive": complete,
                       "explanation": "states: path classes of the symbolic execution (each covers every input that satisfies its path condition); transitions: LLVM instructions executed symbolically. " + ("Every path within the bounds was explored." if complete else "The exploration was cut before every path within the bounds was explored; what was not explored is not claimed."),
                       "queries": tot("queries"), "queries_sat": tot("sat"), "queries_unsat": tot("unsat"), "queries_unknown": tot("unknown"), "solver_seconds": round(tot("solver_s"), 2), "assertions_decided_by_solver": tot("symbolic_asserts"),
                       "functions_encoded": [f[:160] for f in repofns[:150]], "functions_encoded_count": len(fns), "harnesses": per, "engine_errors": errors[:8], "unconfirmed": unconfirmed[:8], "notes": notes[:8],
                       "violations": [{"harness": v[0], "solver": v[1], "native": v[2]} for v in violations[:8]], "known_findings": sorted(seenknown)},
          "assumptions": spec.get("assumptions", []) + specs.COMMON, "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for k in seenknown.values(): print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for h in hs:
        s = h.stats
        print("%s/%s: %d paths, %d queries (%.1f s), %d asserts, %.1f s%s%s" % (prop, h.name, s["paths"], s["queries"], s["solver_s"], s["asserts"], s["wall"], "" if not s["stopped"] else " [cut]", " MISSING %s" % h.missing if h.missing else ""))
    for e in errors: print("engine: " + e)
    for u in unconfirmed: print("unconfirmed: %s: %s" % (u["harness"], u["solver"]))
    for x in notes: print("note: " + x)
    if violations:
        for v in violations[:4]: print("%s: %s -- native: %s" % (v[0], v[1], v[2]))
        print("VIOLATION property=%s replay=%s" % (prop, violations[0][3]))
        return 1
    if any(h.missing and not h.stats["stopped"] for h in hs):
        print("ERROR: a reachability witness was not reached"); return 2
    if not os.environ.get("VERIF_KEEP") and not only: shutil.rmtree(work, ignore_errors=True)
    return 0

if __name__ == "__main__":
    sys.exit(main())
