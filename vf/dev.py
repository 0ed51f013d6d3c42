"""dev: build one unit and verify harnesses  (python3-vt -m vf.dev spec.cpp [harness...])"""
import os, sys, time, json, faulthandler, signal
if os.environ.get("ALARM"): faulthandler.dump_traceback_later(int(os.environ["ALARM"]), exit=True)
from . import build, verify
from concurrent.futures import ThreadPoolExecutor
def main():
    spec = sys.argv[1]
    only = sys.argv[2:]
    bdir = "/tmp/vfdev"; os.makedirs(bdir, exist_ok=True)
    d = build.directives(spec)
    unit = os.path.basename(spec)[:-4]
    t = time.time()
    with ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(build.compile_bc, spec, bdir + "/" + unit + ".bc", d["flags"])]
        for s in d["sources"]:
            fs.append(ex.submit(build.compile_bc, build.REPO + "/" + s, build.bc_name(s, d["flags"], bdir), d["flags"]))
        st = [ex.submit(build.compile_bc, build.VERIF + "/specs/" + s, build.bc_name(s, d["flags"], bdir), d["flags"]) for s in d["stubs"]]
        parts = [f.result() for f in fs]
        stubs = [f.result() for f in st]
    base, hs = build.link(unit, parts, stubs, bdir, None, d['recursion'])
    print("built %.1fs" % (time.time() - t), hs)
    if os.environ.get("NATIVE"):
        if not os.path.exists(bdir + "/native.o") or os.environ["NATIVE"] == "2":
            build.native_rt(bdir)
        build.native(base, bdir)
    import fnmatch
    from . import run
    sel = [h for h in hs if not only or any(fnmatch.fnmatch(h, o) for o in only)]
    bud = int(os.environ.get("BUDGET", "300"))
    opts = {k: int(v) for k, v in d["opts"].items() if k in ("maxunroll", "maxforks", "maxsteps", "ifconv")}
    def one(h):
        nat = None
        if os.environ.get("NATIVE"):
            nat = run.native_run(base, h, int(os.environ.get("TRIALS", "2000")), 1, budget=10.0)
        r = None if os.environ.get("NATIVE") == "3" else run.verify_job(base, h, bud, 30, opts)
        return h, nat, r
    from collections import Counter
    from concurrent.futures import as_completed
    ex = ThreadPoolExecutor(int(os.environ.get("J", "8")))
    nbad = 0
    for f in as_completed([ex.submit(one, h) for h in sel]):
        h, nat, r = f.result()
        line = "== " + h
        bad = []
        if nat:
            line += " native:%s ran=%s disc=%s cov=%s" % (nat["status"], nat.get("ran"), nat.get("discarded"), len(nat.get("covers", [])))
            if nat["status"] != "ok":
                line += " " + str(nat.get("what")) + " | " + str(nat.get("detail")) + " " + (str(nat.get("inputs"))[:600] if nat["status"] == "failed" else nat.get("out", "")[-300:])
        if r:
            bad = [o for o in r["obligations"] if o["status"] != "proved"]
            line += " %s %.1fs exec %.1f %s %s" % (r["status"], r["s"], r.get("exec_s", 0), dict(Counter((o["status"], o["backend"]) for o in r["obligations"])), r["covers"])
            if r["error"]: line += "\n   " + r["error"][-int(os.environ.get("EL", "600")):]
            if bad or r["status"] != "ok" or any(c == "unsat" for c in r["covers"].values()): nbad += 1
        print(line, flush=True)
        for o in bad[:int(os.environ.get("NB", "4"))]:
            print("  ", o["status"], o["name"], o["kind"], o["backend"], o["s"]); print("      goal", o["goal"][:600]); print("      model", str(o.get("model"))[:500])
            if os.environ.get("V"):
                for p in o["pc"]: print("        ", p)
    print("NOT OK:", nbad)
main()
