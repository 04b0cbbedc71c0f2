#!/usr/bin/env python3
"""Decides one property: run.py ID [quick|thorough] [--keep] [--only SUBSTR] [-v]

compile harness + /repo headers to LLVM IR -> symbolic execution (build/symx, z3 decides) ->
counterexamples are replayed natively (same IR compiled to machine code) before they are reported."""
import sys, os, json, subprocess, time, shutil, concurrent.futures as cf, hashlib, threading, resource
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
B = V + "/build"
CXX, CC = "clang++", "clang"
CF = ["-O1", "-Xclang", "-disable-llvm-passes", "-gline-tables-only", "-w", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-I" + V + "/rt/std", "-I" + V + "/rt", "-I" + V + "/stubs", "-I" + REPO + "/include", "-I" + REPO + "/lib/include", "-I" + REPO + "/lib", "-I" + REPO + "/lib/FSE/lib", "-I" + REPO + "/src"]
NPROC = os.cpu_count() or 8

def sh(cmd, timeout=None, env=None, mem=None):
    e = dict(os.environ); e.update(env or {})
    pre = (lambda: resource.setrlimit(resource.RLIMIT_AS, (mem, mem))) if mem else None
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, preexec_fn=pre, stdin=subprocess.DEVNULL)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        return -999, "", "timeout"

class Unit:
    """one compiled harness: (harness, defs, extra sources)"""
    def __init__(self, key, wd):
        self.harness, self.defs, self.src = key
        self.dir = wd + "/" + hashlib.md5(repr(key).encode()).hexdigest()[:10]
        os.makedirs(self.dir, exist_ok=True)
        self.err = None; self.lock = threading.Lock(); self.bins = {}
    def build(self):
        d = self.dir; ins = []
        for i, s in enumerate((V + "/harness/" + self.harness + ".cpp",) + self.src):
            s = s.replace("REPO", REPO).replace("VERIF", V)
            o = "%s/%d.bc" % (d, i)
            cmd = ([CXX, "-std=c++17"] if s.endswith("pp") else [CC]) + [x.replace("VERIF", V) for x in self.defs] + CF + ["-emit-llvm", "-c", s, "-o", o]
            rc, so, se = sh(cmd)
            if rc: rc, so, _ = sh([x for x in cmd if x != "-I" + V + "/rt/std"])   # something our stream headers lack: the library's own
            if rc: self.err = "compile %s: %s" % (s, se[-3000:]); return
            ins.append(o)
        rc, so, se = sh([B + "/symx", "prep", d + "/m.bc"] + ins + [B + "/model.bc"])
        if rc: self.err = "prep: " + se[-3000:]
    def native(self, asan, points):
        key = (asan, tuple(map(tuple, points)))
        with self.lock:
            if key in self.bins: return self.bins[key]
            n = "%s/n%d" % (self.dir, len(self.bins))
            with open(n + ".pts", "w") as f:
                for p in points: f.write("%s %d\n" % (p[0], p[1]))
            ok = False
            rc, so, se = sh([B + "/symx", "native", n + ".bc", self.dir + "/m.bc", n + ".pts"])
            if rc == 0:
                a = ["-fsanitize=address"] if asan else []
                rc, so, se = sh([CXX, "-O1", "-g", "-w", "-c", n + ".bc", "-o", n + ".o"] + a)
                if rc == 0:
                    rc, so, se = sh([CXX, n + ".o", B + "/native_rt.o", "-o", n, "-rdynamic", "-lpthread", "-ldl", "-Wl,--unresolved-symbols=ignore-all", "-no-pie"] + a)
                    ok = rc == 0
            if not ok: print("native build failed: " + se[-1500:])
            self.bins[key] = n if ok else None
            return self.bins[key]

def replay(unit, job, points, trace_file, kind):
    """run the counterexample against the real code; returns a description if it reproduces"""
    env0 = {"ASAN_OPTIONS": "detect_leaks=0:exitcode=76:handle_abort=0"}
    o = job.get("opts", [])
    if "--preempt" in o: env0["VP_PREEMPT"] = str(o[o.index("--preempt") + 1])
    if "--spurious" in o: env0["VP_SPURIOUS"] = str(o[o.index("--spurious") + 1])
    plan = [(False, f) for f in (165, 0, 255, 1)] + [(True, 165), (True, 0)]
    if kind == "memory": plan = plan[-2:] + plan[:-2]
    for asan, fill in plan:
        b = unit.native(asan, points)
        if not b: continue
        rc, so, se = sh([b, trace_file], timeout=60, env=dict(env0, VP_FILL=str(fill), MALLOC_PERTURB_=str(fill ^ 255 or 1)))
        if rc == -999:
            if kind in ("limit", "deadlock"): return "native run does not terminate"
            continue
        if rc == 77: return so.strip().splitlines()[-1]
        if rc == 79: return "deadlock in the native run"
        if rc == 78: return "native run terminated abnormally: " + (so.strip().splitlines() or ["?"])[-1]
        if rc == 76 or "AddressSanitizer" in se:
            l = [x for x in se.splitlines() if "ERROR: AddressSanitizer" in x]
            return "native run: " + (l[0] if l else "memory error")
        if rc < 0: return "native run died with signal %d" % -rc
    return None

def main():
    t0 = time.time()
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    pid = args[0]; tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    verbose = "-v" in sys.argv; keep = "--keep" in sys.argv
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    if only: args = [a for a in args if a != only]; tier = args[1] if len(args) > 1 else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.path.insert(0, V)
    import checks
    spec = checks.CHECKS[pid]
    rc, so, se = sh(["bash", V + "/setup.sh"])
    if rc: print(so + se); sys.exit(2)
    wd = "%s/work/%s-%d" % (B, pid, os.getpid())
    shutil.rmtree(wd, ignore_errors=True); os.makedirs(wd)
    jobs = [j for j in spec["jobs"] if tier == "thorough" or not j.get("thorough")]
    if only: jobs = [j for j in jobs if only in j["name"]]
    budget = spec.get("budget", 480) if tier == "quick" else spec.get("budget_thorough", 3600)
    units = {}
    for j in jobs:
        k = (j["h"], tuple(j.get("defs", ())), tuple(j.get("src", ())))
        if k not in units: units[k] = Unit(k, wd)
        j["unit"] = units[k]
    findings, notes, viol = [], [], None
    try:
        known = json.load(open(V + "/known_findings.json"))["known"]
    except Exception:
        known = []
    with cf.ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(lambda u: u.build(), units.values()))
        bad = [u for u in units.values() if u.err]
        for u in bad: notes.append("not decided: harness %s %s does not compile against the tree: %s" % (u.harness, " ".join(u.defs), u.err[-600:]))
        for u in bad: print(u.harness, u.err[-2000:])
        if len(bad) == len(units):
            print("ERROR: no harness compiles against the current tree"); shutil.rmtree(wd, ignore_errors=True); sys.exit(2)
        good = [j for j in jobs if not j["unit"].err]
        # translation validation binaries are built while the symbolic jobs run
        stop = threading.Event()
        def run_job(ij):
            i, j = ij
            if stop.is_set(): return j, None, "skipped"
            left = budget - (time.time() - t0)
            if left < 3: return j, None, "time budget exhausted"
            out = "%s/job%d.json" % (wd, i)
            tl = min(j.get("time", 240 if tier == "quick" else 1800), left)
            cmd = [B + "/symx", "run", j["unit"].dir + "/m.bc", B + "/engine_rt.bc", out, "--time", str(tl)] + [str(x) for x in j.get("opts", [])]
            for k, v in j.get("knobs", {}).items(): cmd += ["--set", "%s=%d" % (k, v)]
            rc, so, se = sh(cmd, timeout=tl + 120, mem=j.get("mem", 8) << 30)
            if rc not in (0, 1) or not os.path.exists(out): return j, None, "engine error rc=%d %s" % (rc, (so + se)[-800:])
            return j, json.load(open(out)), None
        order = sorted(enumerate(good), key=lambda ij: -ij[1].get("cost", 1))
        results = []
        for f in cf.as_completed([ex.submit(run_job, ij) for ij in order]):
            j, d, err = f.result()
            results.append((j, d, err))
            if verbose: print("%6.1f %s: %s" % (time.time() - t0, j["name"], err or "paths=%d queries=%d wall=%.1f viol=%s inc=%s covers=%s" % (d["stats"]["paths"], d["stats"]["queries"], d["stats"]["wall"], [(v["kind"], v["msg"], v["loc"]) for v in d["violations"]], d["incomplete"], d["covers"])))
            if d and d["violations"] and not viol:
                r = handle(pid, j, d, wd, known, findings, notes)
                if r: viol = r; stop.set()
        tot = {}; fns = set(); cov = {}; samples = []; val_ok = val_bad = 0; exhaustive = True
        jl = []
        vjobs = []
        for j, d, err in results:
            if err:
                if err != "skipped": notes.append("%s: not decided: %s" % (j["name"], err)); exhaustive = False
                continue
            for k, v in d["stats"].items():
                if isinstance(v, (int, float)): tot[k] = max(tot.get(k, 0), v) if k in ("max_query", "maxrss_mb", "wall") else tot.get(k, 0) + v
            fns |= set(d["functions"])
            for k, v in d["covers"].items(): cov[k] = cov.get(k, 0) + v
            if d["incomplete"]: exhaustive = False; notes.append("%s: incomplete: %s" % (j["name"], "; ".join(d["incomplete"][:4])))
            if d["stats"]["paths"] == 0 or (j.get("cover") and not d["violations"] and not d["incomplete"] and any(c not in d["covers"] for c in j["cover"])):
                notes.append("%s: VACUOUS: expected situations not reached (%s)" % (j["name"], [c for c in j.get("cover", []) if c not in d["covers"]]))
            jl.append({"job": j["name"], "bounds": j.get("bounds", ""), "knobs": j.get("knobs", {}), "options": " ".join(map(str, j.get("opts", []))), "paths": d["stats"]["paths"], "queries": d["stats"]["queries"], "solver_s": d["stats"]["solver_time"], "wall_s": d["stats"]["wall"], "complete": not d["incomplete"]})
            if d["samples"]: vjobs.append((j, d))
        # translation validation: concrete instances of explored paths must behave identically in compiled code
        if not viol:
            nv = spec.get("validate", 12 if tier == "quick" else 40)
            step = max(1, len(vjobs) // nv)
            def val(jd):
                j, d = jd; res = []
                b = j["unit"].native(False, d["race_points"])
                for s in d["samples"][:2]:
                    tf = "%s/v%s.trace" % (wd, hashlib.md5(repr((j["name"], s)).encode()).hexdigest()[:12])
                    write_trace(tf, j, s)
                    env = {}
                    o = j.get("opts", [])
                    if "--preempt" in o: env["VP_PREEMPT"] = str(o[o.index("--preempt") + 1])
                    if "--spurious" in o: env["VP_SPURIOUS"] = str(o[o.index("--spurious") + 1])
                    if not b: res.append((j, s, "no native build")); continue
                    rc, so, se = sh([b, tf], timeout=60, env=env)
                    want = ["OBS %s %s" % (x.split()[1], x.split()[3]) for x in s if x.startswith("O ")]
                    have = [x for x in so.splitlines() if x.startswith("OBS ")]
                    okk = rc == 0 and want == have
                    res.append((j, s, None if okk else "rc=%d %s" % (rc, [x for x in zip(want, have) if x[0] != x[1]][:3] or (so + se)[-300:])))
                return res
            for res in ex.map(val, vjobs[::step][:nv]):
                for j, s, e in res:
                    if e: val_bad += 1; notes.append("%s: translation validation mismatch: %s" % (j["name"], e))
                    else:
                        val_ok += 1
                        if len(samples) < 4: samples.append({"job": j["name"], "trace": [x for x in s if not x.startswith("O ")][:40], "observed": [x for x in s if x.startswith("O ")][:12]})
    if not samples:
        for j, d, err in results:
            if d and d["samples"]: samples.append({"job": j["name"], "trace": d["samples"][0][:40]}); break
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": int(tot.get("paths", 0) + tot.get("states", 0)), "transitions": int(tot.get("instructions", 0)), "traces_validated_against_impl": val_ok, "samples": samples or ["none"],
            "explanation": "bounded symbolic execution of the real code's LLVM IR; states = symbolic paths explored plus distinct scheduling states, transitions = IR instructions executed symbolically; every assertion on every path is decided by z3 for all values within the bounds",
            "functions_encoded": sorted(fns), "jobs": jl, "assertions_checked": int(tot.get("asserts", 0)), "assertion_queries": int(tot.get("assert_queries", 0)),
            "solver_queries": int(tot.get("queries", 0)), "solver_sat": int(tot.get("sat", 0)), "solver_unsat": int(tot.get("unsat", 0)), "solver_unknown": int(tot.get("unknown", 0)), "solver_time_s": round(tot.get("solver_time", 0), 2), "slowest_query_s": round(tot.get("max_query", 0), 3),
            "schedule_points": int(tot.get("sched_points", 0)), "abnormal_terminations": int(tot.get("aborts", 0)), "covers": cov, "exhaustive": exhaustive, "validation_mismatches": val_bad, "bounds": spec.get("bounds", ""), "outside_bounds": spec.get("outside", "")},
        "assumptions": spec.get("assumptions", []) + checks.COMMON_ASSUMPTIONS + notes, "wall_s": round(time.time() - t0, 2), "violations": 1 if viol else 0}
    os.makedirs(V + "/evidence", exist_ok=True)
    with open(V + "/evidence/%s.json" % pid, "w") as f: json.dump(ev, f, indent=1)
    for n in notes: print("NOTE " + n)
    for k in findings: print(k)
    if not keep: shutil.rmtree(wd, ignore_errors=True)
    print("%s %s: jobs=%d paths=%d assertions=%d queries=%d (sat %d unsat %d unknown %d) solver=%.1fs validated=%d mismatches=%d exhaustive=%s wall=%.1fs" % (pid, tier, len(jl), tot.get("paths", 0), tot.get("asserts", 0), tot.get("queries", 0), tot.get("sat", 0), tot.get("unsat", 0), tot.get("unknown", 0), tot.get("solver_time", 0), val_ok, val_bad, exhaustive, time.time() - t0))
    if viol:
        print("VIOLATION property=%s replay=%s" % (pid, viol)); sys.stdout.flush(); os._exit(1)
    sys.exit(0)

def write_trace(fn, j, items):
    with open(fn, "w") as f:
        for k, v in j.get("knobs", {}).items(): f.write("K %s 32 %d\n" % (k, v))
        for x in items: f.write(x + "\n")

def handle(pid, j, d, wd, known, findings, notes):
    for n, v in enumerate(d["violations"]):
        for k in known:
            if k.get("property") == pid and k.get("job") == j["name"] and k.get("msg") == v["msg"]:
                findings.append("KNOWN-FINDING: property=%s %s" % (pid, k["what"])); break
        else:
            rd = "%s/replays/%s/%s-%d" % (V, pid, j["name"].replace(" ", "_").replace("/", "_"), n)
            shutil.rmtree(rd, ignore_errors=True); os.makedirs(rd)
            tf = rd + "/trace.txt"
            write_trace(tf, j, v["trace"])
            how = replay(j["unit"], j, d["race_points"], tf, v["kind"])
            with open(rd + "/info.json", "w") as f:
                json.dump({"property": pid, "job": j["name"], "harness": j["h"], "defs": j.get("defs", []), "src": j.get("src", []), "opts": j.get("opts", []), "kind": v["kind"], "msg": v["msg"], "loc": v["loc"], "race_points": d["race_points"], "reproduced": how}, f, indent=1)
            if how:
                print("%s: %s: %s at %s; reproduced by the compiled code: %s" % (j["name"], v["kind"], v["msg"], v["loc"], how))
                return rd
            notes.append("%s: solver counterexample not reproduced by the compiled code (%s: %s at %s), not reported" % (j["name"], v["kind"], v["msg"], v["loc"]))
    return None

if __name__ == "__main__": main()
