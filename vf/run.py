"""Check driver: python3-vt -m vf.run <property id>   (or --replay <file>)

Rebuilds the contract units of the property from /repo's working tree, discharges every
obligation, replays failures on the compiled real code and writes evidence/<id>.json."""
import collections
import glob
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor, as_completed

from . import build

VERIF = build.VERIF
PY = sys.executable
WORKERS = int(os.environ.get("VF_JOBS", "8"))

TRUSTED = [
    "clang 18 front end and the LLVM passes of opt -O2 (the obligations are generated from the IR they produce from /repo's sources)",
    "the verifier /verif/vf (symbolic execution of LLVM IR, loop summarisation, rational-function normaliser)",
    "z3 (python bindings) for linear, nonlinear real and integer obligations",
    "the C++ standard library, Eigen and boost headers are verified as part of the IR; libc memory/allocation functions are modelled",
]
ASSUMED = [
    "doubles are treated as mathematical real numbers (rounding is not modelled); infinities and NaN constants are tracked symbolically",
    "integers are treated as mathematical integers (no wrap-around)",
    "sqrt, exp, log, pow are axiomatised (sqrt exactly, the others as uninterpreted functions with sign facts)",
    "distinct arrays given to a harness do not alias",
    "Eigen is compiled with EIGEN_DONT_VECTORIZE (the scalar code path of the same templates)",
    "heap allocation does not fail",
]


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))


def build_units(units, bdir, ex):
    """compile + link every unit of the property; returns {unit: (base, harnesses, directives)}"""
    os.makedirs(bdir, exist_ok=True)
    D = {u: build.directives(u) for u in units}
    jobs = {}
    for u, d in D.items():
        fl = d["flags"]
        jobs.setdefault((u, tuple(fl)), None)
        for s in d["sources"]:
            jobs.setdefault((build.REPO + "/" + s, tuple(fl)), None)
        for s in d["stubs"]:
            jobs.setdefault((VERIF + "/specs/" + s, tuple(fl)), None)
    rt = ex.submit(build.native_rt, bdir)
    fut = {k: ex.submit(build.compile_bc, k[0], build.bc_name(k[0], list(k[1]), bdir), list(k[1])) for k in jobs}
    out = {k: f.result() for k, f in fut.items()}
    rt.result()

    def one(u):
        d = D[u]
        fl = tuple(d["flags"])
        parts = [out[(u, fl)]] + [out[(build.REPO + "/" + s, fl)] for s in d["sources"]]
        stubs = [out[(VERIF + "/specs/" + s, fl)] for s in d["stubs"]]
        name = os.path.basename(u)[:-4]
        base, hs = build.link(name, parts, stubs, bdir, None, d["recursion"])
        build.native(base, bdir)
        return u, base, hs

    res = {}
    for f in [ex.submit(one, u) for u in units]:
        u, base, hs = f.result()
        res[u] = (base, hs, D[u])
    return res


def native_run(base, h, trials, seed, model=None, budget=5.0, first=0):
    cmd = [base + ".exe", h, str(trials), str(seed), model or "-", str(budget), str(first)]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=budget + 20, preexec_fn=limits,
                           cwd=os.path.dirname(base))
    except subprocess.TimeoutExpired:
        return {"status": "timeout"}
    txt = p.stdout.decode(errors="replace")
    r = {"status": "ok", "out": txt, "rc": p.returncode}
    m = re.search(r"^OK ran=(\d+) discarded=(\d+)", txt, re.M)
    if m:
        r["ran"], r["discarded"] = int(m.group(1)), int(m.group(2))
        r["covers"] = re.findall(r"^COVER (.*)$", txt, re.M)
    elif "FAILED " in txt:
        r["status"] = "failed"
        r["what"] = re.search(r"FAILED (.*)", txt).group(1)
        r["detail"] = re.search(r"DETAIL (.*)", txt).group(1)
        r["trial"] = int(re.search(r"TRIAL (\d+)", txt).group(1))
        r["inputs"] = re.findall(r"^(?:IN|ARR) (.*)$", txt, re.M)
    else:
        r["status"] = "error"
    return r


def verify_job(base, h, budget, per, opts):
    cmd = [PY, "-m", "vf.verify", base + ".ll", h, str(budget), str(per), json.dumps(opts)]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=budget + 30, preexec_fn=limits,
                           cwd=VERIF, env=dict(os.environ, PYTHONHASHSEED=str(opts.get("z3seed", 0))))
        return json.loads(p.stdout.decode().strip().splitlines()[-1])
    except subprocess.TimeoutExpired:
        return {"harness": h, "status": "unsupported", "error": "time limit", "obligations": [], "covers": {}, "loops": [],
                "s": time.time() - t0}
    except Exception as e:
        return {"harness": h, "status": "unsupported", "error": "verifier ended: %r %s" % (e, p.stderr.decode()[-300:]),
                "obligations": [], "covers": {}, "loops": [], "s": time.time() - t0}


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def check(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    units = sorted(glob.glob(os.path.join(VERIF, "specs", pid + "_*.cpp")))
    only = os.environ.get("VF_ONLY")
    if only:
        units = [u for u in units if only in u]
    bdir = os.path.join(VERIF, ".build", pid)
    rdir = os.path.join(VERIF, "replay")
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    for f in glob.glob(os.path.join(rdir, pid + "-*")):
        os.remove(f)
    shutil.rmtree(bdir, ignore_errors=True)
    deadline = t0 + (800 if tier == "quick" else 7200)
    ex = ThreadPoolExecutor(WORKERS)
    violations = []
    notes = []
    try:
        U = build_units(units, bdir, ex)
    except build.BuildError as e:
        # the tree does not compile with the contracts: not a verdict about the property
        path = os.path.join(rdir, pid + "-build.txt")
        open(path, "w").write(str(e))
        print(str(e)[-3000:])
        print("ERROR: the contracts of %s do not build against this tree (no verdict)" % pid)
        return 2
    tb = time.time() - t0
    jobs = []
    for u, (base, hs, d) in U.items():
        thor = d["opts"].get("thorough", "").split()
        heavy = d["opts"].get("heavy", "").split()
        for h in hs:
            nat_always = h in d["opts"].get("bounded", "").split()
            native_only = h in thor and tier != "thorough" or nat_always
            opts = {k: int(v) for k, v in d["opts"].items() if k in ("maxunroll", "maxforks", "maxsteps", "ifconv")}
            budget = float(d["opts"].get("budget", 300))
            per = float(d["opts"].get("per", 30))
            if tier == "thorough":
                budget, per = budget * 6, per * 4
            if native_only:
                opts["native_only"] = 2 if nat_always else 1
            jobs.append((0 if h in heavy else 1, u, base, h, budget, per, opts, d))
    jobs.sort(key=lambda j: j[:4])
    nat = {}
    ver = {}

    def vjob(j):
        _, u, base, h, budget, per, opts, d = j
        left = deadline - time.time() - 60
        b = max(5.0, min(budget, left))
        n = native_run(base, h, int(d["opts"].get("trials", 2000 if tier == "quick" else 200000)), seed,
                       budget=3.0 if tier == "quick" else 60.0)
        if n["status"] == "failed":
            r = {"harness": h, "status": "failed", "error": "a random execution violates the contract", "obligations": [],
                 "covers": {}, "loops": [], "s": 0.0}
        elif opts.get("native_only"):
            r = {"harness": h, "status": "deferred", "error": "proved in the thorough tier" if opts["native_only"] == 1 else "beyond the verifier", "obligations": [], "covers": {},
                 "loops": [], "s": 0.0}
        else:
            r = verify_job(base, h, b, per, opts)
            # a search that ended undecided is repeated with other seeds
            for k in (1, 2):
                left = deadline - time.time() - 90
                if left < 60 or not any(o["status"] == "unknown" for o in r["obligations"]):
                    break
                r2 = verify_job(base, h, min(2 * budget, left), 2 * per, dict(opts, z3seed=k))
                bad = lambda x: sum(o["status"] != "proved" for o in x["obligations"])
                if r2["status"] != "unsupported" and bad(r2) < bad(r):
                    r = r2
        return r, n

    futs = {ex.submit(vjob, j): j for j in jobs}
    for f in as_completed(futs):
        j = futs[f]
        ver[(j[1], j[3])], nat[(j[1], j[3])] = f.result()

    known = [k for k in load_known() if k["property"] == pid and k["status"] == "open"]
    total = disch = 0
    backends = collections.Counter()
    kinds = collections.Counter()
    solver_s = 0.0
    queries = 0
    bounded = []
    harn = []
    covers = {}
    trials = 0
    loops = 0
    fns = set()
    knownhits = []

    def found(u, h, what, detail, native_res, obligs):
        base = U[u][0]
        path = os.path.join(rdir, "%s-%s.json" % (pid, h))
        rec = {"property": pid, "unit": os.path.relpath(u, VERIF), "harness": h, "obligation": what, "detail": detail,
               "failed_obligations": obligs, "seed": seed}
        if native_res is not None:
            rec["input"] = native_res["inputs"]
            rec["trial"] = native_res["trial"]
            rec["model"] = native_res.get("model")
            rec["seed"] = native_res.get("seed", seed)
            rec["replay_cmd"] = "cd /verif && ./check --replay " + path
        json.dump(rec, open(path, "w"), indent=1)
        for k in known:
            if k["harness"] == h and k["obligation"] in (what, "*"):
                knownhits.append((k, what))
                return
        violations.append((path, native_res is not None, "%s: %s" % (h, what)))

    def replay_model(base, h, ob, i):
        mp = "%s.%s.%d.model" % (base, h, i)
        with open(mp, "w") as f:
            for k, v in sorted((ob.get("model") or {}).items()):
                if re.match(r"^[\w.\[\],#-]+$", k):
                    f.write("%s=%r\n" % (k, v))
        r = native_run(base, h, 400, seed, mp, 5.0)
        if r["status"] == "failed":
            r["model"] = mp
            r["model_values"] = ob.get("model")
            return r
        return None

    post = []
    for (_, u, base, h, budget, per, opts, d) in jobs:
        r, n = ver[(u, h)], nat[(u, h)]
        obs = r["obligations"]
        bad = [o for o in obs if o["status"] != "proved"]
        total += len(obs)
        disch += len(obs) - len(bad)
        for o in obs:
            kinds[o["kind"]] += 1
            if o["status"] == "proved":
                backends[o["backend"] or "simp"] += 1
        solver_s += r.get("solver", {}).get("solver_s", 0.0)
        queries += r.get("solver", {}).get("queries", 0)
        loops += len(set((l[0], l[1]) for l in r["loops"]))
        trials += n.get("ran", 0)
        harn.append({"unit": os.path.basename(u), "harness": h, "status": r["status"], "obligations": len(obs),
                     "proved": len(obs) - len(bad), "s": r.get("s"), "error": (r.get("error") or "")[:300] or None,
                     "loops_summarised": len(r["loops"]), "loops_unrolled_completely": r.get("unrolled", 0),
                     "contract_trials_on_real_code": n.get("ran", 0)})
        cov_fail = []
        for c, stt in r["covers"].items():
            if stt != "sat" and c in (n.get("covers") or []):
                stt = "reached by execution"
            covers["%s: %s" % (h, c)] = stt
            if stt == "unsat":
                cov_fail.append(c)
        if n["status"] == "failed":
            found(u, h, n["what"], n["detail"], n, bad)
            continue
        if r["status"] == "deferred":
            bounded.append("%s: %sbounded to %d random executions of the contract on the real code (%s)" % (
                h, "in the quick tier " if "thorough" in r["error"] else "", n.get("ran", 0), r["error"]))
        if r["status"] == "unsupported":
            m = native_run(base, h, 10 ** 7, seed + 1, budget=20.0)
            if m["status"] == "failed":
                m["seed"] = seed + 1
                found(u, h, m["what"], m["detail"], m, bad)
                continue
            bounded.append("%s (%s): bounded to %d random executions of the contract on the real code" % (
                h, (r.get("error") or "")[:160], m.get("ran", 0)))
            trials += m.get("ran", 0)
            # obligations that failed before the verifier gave up still count
        if bad:
            hit = None
            for i, o in enumerate(sorted(bad, key=lambda o: o["status"] != "failed")[:6]):
                hit = replay_model(base, h, o, i)
                if hit:
                    break
            if not hit:
                m = native_run(base, h, 10 ** 7, seed + 2, budget=25.0 if len(violations) < 3 else 5.0)
                if m["status"] == "failed":
                    m["seed"] = seed + 2
                    hit = m
            if hit:
                found(u, h, hit["what"], hit["detail"], hit, bad)
            else:
                found(u, h, bad[0]["name"], "obligation not discharged (%s)" % bad[0]["status"], None, bad)
        elif cov_fail:
            found(u, h, "vacuous: " + cov_fail[0], "no execution satisfies the precondition", None, [])
        elif r["status"] == "ok" and not obs:
            found(u, h, "no obligations generated", "", None, [])
    for u, (base, hs, d) in U.items():
        R = build.reachable(base + ".pre.ll")
        for h in hs:
            fns.update(R.get(h, ()))
    names = sorted(set(n for n in build.demangle(sorted(fns)) if not n.startswith(("typeinfo", "vtable"))))
    short = sorted(set(re.sub(r"<.*", "", re.sub(r"\(.*", "", n)).split(" ")[-1] for n in names))
    extra_assume = sorted(set(x for u in U for x in re.findall(r"//\s*assumption:\s*(.*)", open(u).read())))
    contracted = sorted(set(x for u in U for x in re.findall(r"//\s*contract:\s*(.*)", open(u).read())))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": total, "discharged": disch,
            "checker_cmd": "cd /verif && ./check %s" % pid,
            "trusted_base": TRUSTED,
            "obligations_by_kind": dict(kinds), "discharged_by_backend": dict(backends),
            "solver_s": round(solver_s, 2), "solver_queries": queries,
            "harnesses": harn, "functions_of_the_real_code_reached": short, "instances_reached": len(names),
            "callees_replaced_by_contract": contracted,
            "loops_with_synthesised_invariants": loops, "vacuity_covers": covers,
            "bounded_not_proved": bounded,
            "contract_trials_on_real_code": trials,
            "known_findings": ["%s: %s" % (k["harness"], k["what"]) for k, _ in knownhits],
            "build_s": round(tb, 1),
        },
        "assumptions": ASSUMED + extra_assume,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print("%s: %d harnesses, %d/%d obligations discharged, %d trials, %.0f s" % (
        pid, len(jobs), disch, total, trials, time.time() - t0))
    for b in bounded:
        print("BOUNDED " + b)
    for k, what in knownhits:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if violations:
        violations.sort(key=lambda v: not v[1])
        for path, inp, what in violations:
            print("  failed obligation: " + what)
        path, inp, what = violations[0]
        print("VIOLATION property=%s replay=%s%s" % (pid, path, "" if inp else " no-failing-input-found"))
        return 1
    if not os.environ.get("VF_KEEP"):
        shutil.rmtree(bdir, ignore_errors=True)
    return 0


def replay(path):
    rec = json.load(open(path))
    u = os.path.join(VERIF, rec["unit"])
    bdir = os.path.join(VERIF, ".build", "replay")
    U = build_units([u], bdir, ThreadPoolExecutor(WORKERS))
    base = U[u][0]
    if "trial" not in rec:
        print("no failing input: obligation %s was not discharged" % rec["obligation"])
        return 1
    r = native_run(base, rec["harness"], 1, rec["seed"], rec.get("model"), 20.0, rec["trial"])
    print(r.get("out"))
    return 1 if r["status"] == "failed" else 0


if __name__ == "__main__":
    try:
        if sys.argv[1] == "--replay":
            sys.exit(replay(sys.argv[2]))
        sys.exit(check(sys.argv[1]))
    except SystemExit:
        raise
