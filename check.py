#!/usr/bin/env python3
"""Run the symbolic checks of one property:  check.py <ID> [--tier quick|thorough]

Every run recompiles /repo/src to LLVM IR, links it with the property's harnesses, explores
all paths with the engine in dse/ (Z3 decides every branch and assertion), replays solver
models against the gcc build of the same sources, and writes evidence/<ID>.json."""
import sys, os, subprocess, json, hashlib, shutil, time, glob, threading, importlib.util
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("BETREE_REPO", "/repo")
B = os.path.join(V, "build")
EV = os.path.join(V, "evidence")
CLANG = next((c for c in ("/usr/bin/clang-18", "/usr/lib/llvm-18/bin/clang", "clang-18", "clang") if shutil.which(c)), "clang")
LINK = next((c for c in ("/usr/bin/llvm-link-18", "/usr/lib/llvm-18/bin/llvm-link", "llvm-link-18") if shutil.which(c)), "llvm-link")
BCF = ["-std=gnu11", "-O1", "-g", "-fno-vectorize", "-fno-slp-vectorize", "-mllvm", "-replexitval=never", "-fno-builtin", "-fno-pic", "-fno-strict-aliasing", "-w"]
UBF = ["-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,float-cast-overflow", "-fsanitize-trap=all"]
NATIVE = {
    "plain": ["gcc", "-O3", "-std=gnu11", "-w"],
    "asan": ["gcc", "-O1", "-g", "-std=gnu11", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"],
    "msan": [CLANG, "-O1", "-g", "-std=gnu11", "-w", "-fsanitize=memory"],
}
WRAP = ["-Wl,--wrap=malloc", "-Wl,--wrap=calloc", "-Wl,--wrap=realloc", "-Wl,--wrap=free"]

class Err(Exception):
    pass

def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise Err("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-3000:]))
    return p.stdout

def engine():
    os.makedirs(B, exist_ok=True)
    src = os.path.join(V, "dse", "dse.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(B, "dse-" + h)
    if not os.path.exists(exe):
        tmp = exe + ".%d" % os.getpid()
        sh(["g++", "-O2", "-std=c++17", "-fno-rtti", src, "-o", tmp, "-I/usr/lib/llvm-18/include", "-D_GNU_SOURCE",
            "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", "-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-lz3"])
        os.rename(tmp, exe)
    return exe

class Work:
    """one scratch directory with everything built from the current /repo/src"""
    def __init__(self):
        self.dir = os.path.join(B, "run-%d" % os.getpid())
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.lock = threading.Lock()
        self.memo = {}
        self.pool = ThreadPoolExecutor(12)
    def once(self, key, fn):
        with self.lock:
            ent = self.memo.get(key)
            mine = ent is None
            if mine:
                ent = self.memo[key] = [threading.Event(), None, None]
        if mine:
            try:
                ent[1] = fn()
            except BaseException as e:
                ent[2] = e
            ent[0].set()
        ent[0].wait()
        if ent[2]:
            raise ent[2]
        return ent[1]
    def srcs(self):
        return sorted(glob.glob(os.path.join(REPO, "src", "*.c")))
    def bitcode(self, ub):
        def f():
            d = os.path.join(self.dir, "bc-%d" % ub)
            os.makedirs(d)
            jobs = []
            for s in self.srcs():
                o = os.path.join(d, os.path.basename(s)[:-2] + ".bc")
                jobs.append(self.pool.submit(sh, [CLANG] + BCF + (UBF if ub else []) + ["-I" + REPO + "/src", "-c", "-emit-llvm", s, "-o", o]))
            o = os.path.join(d, "dse_libc.bc_")
            sh([CLANG] + BCF + ["-I" + V + "/dse", "-c", "-emit-llvm", V + "/dse/dse_libc.c", "-o", o])
            for j in jobs:
                j.result()
            out = os.path.join(self.dir, "lib-%d.bc" % ub)
            sh([LINK, "-o", out, o] + sorted(glob.glob(d + "/*.bc")))
            return out
        return self.once(("bc", ub), f)
    def linked(self, harness, defs, ub):
        def f():
            lib = self.bitcode(ub)
            k = hashlib.md5(repr((harness, defs, ub)).encode()).hexdigest()[:10]
            o = os.path.join(self.dir, "h-%s.bc" % k)
            sh([CLANG] + BCF + ["-I" + REPO + "/src", "-I" + V + "/dse", "-I" + V + "/h"] + ["-D" + x for x in defs] + ["-c", "-emit-llvm", os.path.join(V, "h", harness), "-o", o])
            out = os.path.join(self.dir, "l-%s.bc" % k)
            sh([LINK, "-o", out, o, lib])
            return out
        return self.once(("ln", harness, tuple(defs), ub), f)
    def native_lib(self, kind):
        def f():
            d = os.path.join(self.dir, "nat-" + kind)
            os.makedirs(d)
            jobs = [self.pool.submit(sh, NATIVE[kind] + ["-I" + REPO + "/src", "-c", s, "-o", os.path.join(d, os.path.basename(s)[:-2] + ".o")]) for s in self.srcs()]
            for j in jobs:
                j.result()
            return sorted(glob.glob(d + "/*.o"))
        return self.once(("nat", kind), f)
    def native(self, harness, defs, entry, kind):
        def f():
            objs = self.native_lib(kind)
            out = os.path.join(self.dir, "n-" + hashlib.md5(repr((harness, defs, entry, kind)).encode()).hexdigest()[:10])
            own = []                      # the harness itself is not instrumented for undefined operations
            for i, src in enumerate((os.path.join(V, "h", harness), V + "/dse/replay.c")):
                own.append("%s.%d.o" % (out, i))
                sh([f.replace("address,undefined", "address") for f in NATIVE[kind] if "no-sanitize-recover" not in f] + ["-I" + REPO + "/src", "-I" + V + "/dse", "-I" + V + "/h", "-DHARNESS=" + entry] + ["-D" + x for x in defs] +
                   (["-DWRAPMALLOC"] if kind == "plain" else []) + ["-c", src, "-o", own[-1]])
            sh(NATIVE[kind] + own + objs + (WRAP if kind == "plain" else []) + ["-lm", "-o", out])
            return out
        return self.once(("natb", harness, tuple(defs), entry, kind), f)
    def close(self):
        self.pool.shutdown()
        shutil.rmtree(self.dir, ignore_errors=True)

KINDS = {"assert": ["plain", "asan"], "abort": ["plain", "asan"], "exit": ["plain"], "unreachable": ["plain", "asan"],
         "nontermination": ["plain"], "stack-overflow": ["plain", "asan"], "uninit": ["msan", "valgrind", "plain"],
         "undefined-behaviour": ["asan"], "div-by-zero": ["plain", "asan"]}

def run_native(exe, inputs, params, extra=(), timeout=60, wrapper=()):
    path = exe + ".in.%d.%d" % (os.getpid(), threading.get_ident())
    with open(path, "w") as f:
        f.write(inputs)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1", UBSAN_OPTIONS="halt_on_error=1:exitcode=98:print_stacktrace=0", MSAN_OPTIONS="exit_code=97")
    try:
        p = subprocess.run(list(wrapper) + [exe, path] + ["%d=%d" % kv for kv in sorted(params.items())] + list(extra), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=os.path.dirname(exe))
        return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return "timeout", "", ""
    finally:
        try: os.unlink(path)
        except OSError: pass

def confirm(w, run, v):
    """replay a solver model on the real code; returns (confirmed, how, detail)"""
    order = KINDS.get(v["kind"], ["asan", "plain", "valgrind"])
    detail = ""
    for k in order:
        wrapper = ()
        if k == "valgrind":
            if not shutil.which("valgrind"): continue
            exe = w.native(run["src"], run.get("defs", ()), run.get("entry", "harness"), "plain")
            wrapper = ("valgrind", "-q", "--error-exitcode=96")
        else:
            exe = w.native(run["src"], run.get("defs", ()), run.get("entry", "harness"), k)
        rc, out, err = run_native(exe, v["inputs"], run["params"], wrapper=wrapper, timeout=60)
        detail = "%s: rc=%s %s" % (k, rc, err[-600:])
        if rc == 77 or rc == 0:
            continue
        return True, k, detail
    return False, order[-1], detail

def run_engine(exe, w, run, deadline, procs):
    bc = w.linked(run["src"], run.get("defs", ()), int(bool(run.get("ub"))))
    out = os.path.join(w.dir, "o-%s.json" % hashlib.md5(run["name"].encode()).hexdigest()[:10])
    cmd = [exe, bc, "--entry", run.get("entry", "harness"), "--out", out, "--deadline", str(deadline), "--procs", str(procs)]
    if run.get("maxsteps"): cmd += ["--maxsteps", str(run["maxsteps"])]
    if run.get("sat"): cmd += ["--sat"]
    if run.get("fpfork"): cmd += ["--fpfork"]
    if run.get("keepgoing"): cmd += ["--keepgoing"]
    for k, x in run["params"].items():
        cmd += ["--param", "%d=%d" % (k, x)]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    RUNNING.add(p)
    if STOPPED:
        halt()
    log = p.communicate()[0]
    RUNNING.discard(p)
    if not os.path.exists(out):
        if STOPPED:
            return None
        raise Err("engine produced no result for %s (rc %s): %s" % (run["name"], p.returncode, log[-1500:]))
    try:
        r = json.load(open(out))
    except ValueError:
        if STOPPED:
            return None
        raise
    r["log"] = log[-2000:]
    return r

RUNNING, STOPPED = set(), []
def halt():
    """a violation is confirmed: the remaining runs need not finish"""
    STOPPED.append(1)
    for p in list(RUNNING):
        try:
            p.terminate()
        except OSError:
            pass

def validate_samples(w, run, res, limit):
    """run path models on the gcc build; observations must agree with the engine's"""
    exe = w.native(run["src"], run.get("defs", ()), run.get("entry", "harness"), "plain")
    n = 0; bad = []
    step = max(1, len(res["samples"]) // limit)
    for s in res["samples"][::step][:limit]:
        ins = "\n".join(l for l in s.splitlines() if not l.startswith("#")) + "\n"
        obs = [l for l in s.splitlines() if l.startswith("#")]
        rc, out, err = run_native(exe, ins, run["params"], extra=["--obs"])
        got = [l for l in out.splitlines() if l.startswith("#")]
        n += 1
        if rc not in (0, 77, "timeout"):
            # the real code fails on inputs the engine passed (compiler-dependent behaviour)
            return n, bad, {"kind": "native", "msg": "the native build fails on this input: %s" % err.strip()[-200:], "where": run["src"], "inputs": ins, "replayed_with": "plain", "replay_detail": "plain: rc=%s %s" % (rc, err[-600:])}
        if rc != 0 or got != obs:
            bad.append({"inputs": ins, "rc": rc, "expected": obs, "got": got, "err": err[-500:]})
    return n, bad, None

def main():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        i = args.index("--tier"); tier = args[i + 1]; del args[i:i + 2]
    only = None
    if "--only" in args:
        i = args.index("--only"); only = args[i + 1]; del args[i:i + 2]
    pid = args[0]
    if pid == "--setup":
        print(engine()); return
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    spec = importlib.util.spec_from_file_location("runs", os.path.join(V, "runs.py"))
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    prop = m.PROPS[pid]
    runs = [r for r in m.runs_for(pid, tier) if not only or only in r["name"]]
    budget = 780 if tier == "quick" else 4 * 3600
    os.makedirs(EV, exist_ok=True)
    if not runs:
        print("ERROR: no runs"); sys.exit(2)
    w = Work()
    rc = 0
    try:
        rc = drive(pid, prop, runs, tier, seed, budget, t0, w)
    except Err as e:
        print("ERROR: %s" % e)
        rc = 2
    finally:
        w.close()
    sys.exit(rc)

def drive(pid, prop, runs, tier, seed, budget, t0, w):
    exe = engine()
    ncpu = os.cpu_count() or 8
    heavy = [r for r in runs if r.get("procs", 0) > 2]
    light = [r for r in runs if r.get("procs", 0) <= 2]
    results = {}
    lock = threading.Lock()
    stop = []
    def one(run, procs):
        left = budget - (time.time() - t0)
        if stop or left < 15:
            return
        r = run_engine(exe, w, run, min(run.get("deadline", 600 if tier == "quick" else 3 * 3600), left - 10), procs)
        if r is None:
            return
        conf, unconf = [], []
        for v in r["violations"]:
            ok, how, detail = confirm(w, run, v)
            v["replayed_with"] = how; v["replay_detail"] = detail
            (conf if ok else unconf).append(v)
            if ok: break
        r["confirmed"], r["unconfirmed"] = conf, unconf
        if unconf and not conf and not run.get("keepgoing"):
            # keep looking past the candidate that did not reproduce
            r2 = run_engine(exe, w, dict(run, keepgoing=True, name=run["name"] + "+"), max(10, min(120, budget - (time.time() - t0) - 10)), procs)
            for v in (r2 or {"violations": []})["violations"]:
                ok, how, detail = confirm(w, run, v)
                v["replayed_with"] = how; v["replay_detail"] = detail
                if ok: conf.append(v); break
            r["confirmed"] = conf
        if conf: stop.append(1); halt()
        if not conf and r["samples"]:
            r["validated"], r["validation_bad"], nat = validate_samples(w, run, r, 6 if tier == "quick" else 24)
            if nat: conf.append(nat); stop.append(1); halt()
        with lock:
            results[run["name"]] = (run, r)
    errs = []
    def guarded(run, procs):
        try: one(run, procs)
        except Err as e: errs.append(str(e))
    k = max(1, min(ncpu, 8))
    with ThreadPoolExecutor(k) as ex:
        list(ex.map(lambda r: guarded(r, 1), light))
    for r in heavy:
        guarded(r, ncpu)
    if errs:
        raise Err(errs[0])
    # ---- verdict
    viols = []
    missing = [r["name"] for r in runs if r["name"] not in results]
    tot = dict(paths=0, paths_assumed_away=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, forks=0, instrs=0, asserts_symbolic=0, asserts_concrete=0, branches_symbolic=0, concretisations=0)
    fns, fsym, validated, vbad, notes, incomplete, eng = set(), set(), 0, [], [], [], []
    runrep, covers_missing, unconf_all = [], [], []
    known_ids = set()
    for name, (run, r) in sorted(results.items()):
        for x in tot: tot[x] += r[x]
        fns.update(r["functions"]); fsym.update(r["functions_symbolic"])
        validated += r.get("validated", 0)
        for b in r.get("validation_bad", []): vbad.append((name, b))
        if r["engine_error"]: eng.append((name, r["engine_msg"]))
        if r["incomplete"]: incomplete.append({"run": name, "why": r["incomplete_msg"]})
        for v in r["confirmed"]: viols.append((run, v))
        for v in r["unconfirmed"]: unconf_all.append({"run": name, "kind": v["kind"], "msg": v["msg"], "where": v["where"], "inputs": v["inputs"]})
        cm = [c for c in run.get("covers", []) if str(c) not in r["covers"]]
        if cm and not r["confirmed"]: covers_missing.append({"run": name, "covers": cm})
        runrep.append({"run": name, "bounds": run.get("bounds", ""), "paths": r["paths"], "queries": r["queries"], "unsat": r["unsat"], "sat": r["sat"], "solver_s": r["solver_s"], "solver_max_s": r["solver_max_s"], "wall_s": r["wall_s"],
                       "closed": not r["incomplete"] and not r["violations"], "assertion_queries": r["asserts_symbolic"], "covers": r["covers"], "samples_replayed": r.get("validated", 0)})
    cov = {
        "states": tot["paths"], "transitions": tot["forks"] + tot["branches_symbolic"], "traces_validated_against_impl": validated,
        "queries": tot["queries"], "queries_unsat": tot["unsat"], "queries_sat": tot["sat"], "queries_unknown": tot["unknown"],
        "solver_s": round(tot["solver_s"], 3), "paths": tot["paths"], "paths_excluded_by_assumptions": tot["paths_assumed_away"],
        "assertions_decided_symbolically": tot["asserts_symbolic"], "assertions_on_concrete_values": tot["asserts_concrete"], "symbolic_branches": tot["branches_symbolic"],
        "address_or_value_concretisations": tot["concretisations"], "instructions": tot["instrs"],
        "functions_encoded": sorted(f for f in fns if not f.startswith("dse_")), "functions_with_symbolic_data": sorted(fsym), "runs": runrep,
        "runs_not_started": missing, "incomplete": incomplete, "unconfirmed_candidates": unconf_all, "reachability_marks_missing": covers_missing,
        "exhaustive_within_bounds": not incomplete and not missing and not unconf_all and not viols and not covers_missing,
        "samples": [s for _, (run, r) in sorted(results.items()) for s in r["samples"][:1]][:12],
        "encoding": "each /repo/src/*.c compiled by clang-18 -O1 to LLVM IR in this run; every path of the linked harness explored, Z3 decides each branch side and each assertion",
    }
    vio_lines = []
    if viols:
        rd = os.path.join(EV, "replays"); os.makedirs(rd, exist_ok=True)
        for i, (run, v) in enumerate(viols[:5]):
            path = os.path.join(rd, "%s-%d.json" % (pid, i))
            json.dump({"property": pid, "run": run["name"], "harness": run["src"], "params": run["params"], "kind": v["kind"], "message": v["msg"], "where": v["where"], "inputs": v["inputs"].splitlines(), "replayed_with": v["replayed_with"], "replay_output": v["replay_detail"],
                       "how_to": "python3 /verif/check.py %s --only %s" % (pid, run["name"])}, open(path, "w"), indent=1)
            vio_lines.append("VIOLATION property=%s replay=%s" % (pid, path))
            print("%s: %s (%s) at %s; inputs: %s" % (run["name"], v["msg"], v["kind"], v["where"], " ".join(v["inputs"].split())))
    # ---- known findings: replay the listed inputs on the real code
    kf = os.path.join(V, "known-findings.jsonl")
    kfound = []
    if os.path.exists(kf):
        for line in open(kf):
            line = line.strip()
            if not line or not line.startswith("{"): continue
            k = json.loads(line)
            if k.get("property") != pid or k.get("status") != "finding": continue
            run = {"src": k["harness"], "params": {int(a): b for a, b in k.get("params", {}).items()}, "name": "known", "entry": k.get("entry", "harness")}
            exe2 = w.native(run["src"], (), run["entry"], k.get("build", "plain"))
            rc2, out, err = run_native(exe2, k.get("inputs", ""), run["params"], timeout=20)
            if rc2 != 0:
                print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
                kfound.append(k["what"])
    cov["known_findings_reproduced"] = kfound
    ev = {"property": pid, "tier": tier, "seed": seed, "level": prop["level"], "coverage": cov, "assumptions": prop.get("assumptions", []) + COMMON_ASSUMPTIONS,
          "wall_s": round(time.time() - t0, 2), "violations": len(vio_lines)}
    json.dump(ev, open(os.path.join(EV, pid + ".json"), "w"), indent=1)
    for l in vio_lines: print(l)
    print("%s %s: %d runs, %d paths, %d queries (%d unsat), solver %.1fs, %d models replayed natively, %.1fs%s" % (pid, tier, len(results), tot["paths"], tot["queries"], tot["unsat"], tot["solver_s"], validated, time.time() - t0,
          "" if cov["exhaustive_within_bounds"] else " NOT EXHAUSTIVE"))
    if viols:
        return 1
    for x in incomplete + missing: print("INCOMPLETE: %s" % x)
    for x in unconf_all: print("UNCONFIRMED (not reported): %s" % json.dumps(x)[:900])
    for x in covers_missing: print("REACHABILITY: %s" % x)
    if eng:
        print("ENGINE ERROR: %s" % eng[:3]); return 2
    if vbad:
        print("ENGINE/NATIVE MISMATCH: %s" % json.dumps(vbad[0])[:1500]); return 2
    return 0

COMMON_ASSUMPTIONS = [
    "single-threaded use; memory allocation succeeds",
    "libc string/sort/number functions are replaced by the C models in dse/dse_libc.c; text literals are decimal renderings of the symbolic value (minus sign included) and the models return that value for them",
    "the code is analysed as compiled by clang-18 -O1; path models are replayed on a gcc -O3 build of the same sources",
]
if __name__ == "__main__":
    main()
