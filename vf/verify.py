"""Verify one harness of a built unit: symbolic execution + proof of all obligations."""
import json
import os
import sys
import time
import traceback
from fractions import Fraction

from . import ir, solve
from .terms import *
from .engine import Engine, definedness
from .exec import Unsupported, Infeasible, fresh
from .solve import Prover, feasible, z3check


def rds(t, out, seen):
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "rd":
            out.append(x)
        st.extend(children(x))


def solve_for(n, a, b):
    """n from a(n) == b, linear, unit coefficient"""
    p = ipoly(a)
    c = p.get((n,), Fraction(0))
    if c == 0 or any(n in varset(y) for m in p if m != (n,) for y in m):
        return None
    rest = ifrom({m: k for m, k in p.items() if m != (n,)})
    d = isub(b, rest)
    if abs(c) != 1:
        q = ipoly(d)
        if all((Fraction(k) / c).denominator == 1 for k in q.values()):
            return ifrom({m: Fraction(k) / c for m, k in q.items()})
        return None
    return iscale(d, 1 / c)


def instantiate(quants, pc, goal, rounds=2, limit=60, focus=False):
    facts = []
    done = set()
    todo = list(quants)
    for rnd in range(rounds):
        terms = [goal] if focus else [goal] + list(pc) + facts
        R = []
        seen = set()
        for t in terms:
            rds(t, R, seen)
        ints = set()
        for t in terms:
            for v in varset(t):
                if v.sort == "I":
                    ints.add(v)
        new = []
        for q in list(todo):
            cands = set()
            body_r = []
            s2 = set()
            rds(q.body, body_r, s2)
            for qq in q.quants:
                rds(qq.body, body_r, s2)
            for br in body_r:
                for gr in R:
                    if gr.args[0] != br.args[0] or len(gr.args) != len(br.args):
                        continue
                    for x, y in zip(br.args[1:], gr.args[1:]):
                        if q.n in varset(x):
                            c = solve_for(q.n, x, y)
                            if c is not None and q.n not in varset(c) and not (varset(c) & q.ex):
                                cands.add(c)
            # the last iteration
            for a in ([q.guard] if q.guard.op != "and" else q.guard.args):
                if a.op == "ige0":
                    p = ipoly(a.args[0])
                    c = p.get((q.n,), Fraction(0))
                    if c == -1:
                        e = ifrom({m: k for m, k in p.items() if m != (q.n,)})
                        if q.n not in varset(e):
                            cands.add(e)
            if not focus:
                cands.add(I0)
            for v in ints:
                if len(ints) <= 6 and not focus:
                    cands.add(v)
            for c in sorted(cands, key=lambda t: t.id):
                k = (id(q), c.id)
                if k in done or len(facts) + len(new) > limit:
                    continue
                done.add(k)
                ren = {v: fresh(v.sort, "q") for v in q.ex}
                ren[q.n] = c
                memo = {}
                g = lambda t: subst(t, ren, memo)
                gd = g(q.guard)
                if gd is FALSE:
                    continue
                new.append(implies(gd, g(q.body)))
                from .exec import Quant
                for qq in q.quants:
                    todo.append(Quant(qq.n, band(gd, g(qq.guard)), qq.ex, g(qq.body), qq.quants))
        facts += [f for f in new if f is not TRUE]
        if not new:
            break
    return facts


def model_env(model):
    out = {}
    for v, x in (model or {}).items():
        nm = str(v.args[0])
        if v.op == "var" and "!" not in nm:
            out[nm] = float(x) if not isinstance(x, bool) else float(x)
    return out


def eval_ints(t, model):
    p = ipoly(t)
    r = Fraction(0)
    for m, c in p.items():
        k = c
        for x in m:
            if x not in model:
                return None
            k *= Fraction(model[x])
        r += k
    return int(r)


def verify(ll, harness, budget, per_obl, opts=None):
    if opts and opts.get("z3seed"):
        import z3
        for k in ("smt.random_seed", "sat.random_seed", "nlsat.seed", "sls.random_seed"):
            try:
                z3.set_param(k, opts["z3seed"])
            except z3.Z3Exception:
                pass
    t0 = time.time()
    res = {"harness": harness, "status": "ok", "obligations": [], "covers": {}, "loops": [], "error": None}
    try:
        M = ir.Module(open(ll).read())
        E = Engine(M, dict(opts or {}))
        E.run_function("@vf_harness_" + harness)
        res["steps"] = E.steps
        res["loops"] = [list(map(str, l)) for l in E.loops_summarised]
        res["unrolled"] = E.loops_unrolled
        res["exec_s"] = time.time() - t0
        for name, pcs in E.covers.items():
            st = "unsat"
            for pc in pcs:
                r, _ = z3check([p for p in pc if p is not TRUE], 3000)
                if r == "sat":
                    st = "sat"
                    break
                if r == "unknown":
                    st = "unknown"
            res["covers"][name] = st
        seen = {}
        proved = set()
        for o in E.obls:
            left = budget - (time.time() - t0)
            key = (o.name, o.goal.id, tuple(p.id for p in o.pc), tuple(id(q) for q in o.quants))
            if key in seen:
                continue
            t1 = time.time()
            goal = o.goal
            # the same goal under the same relevant facts has been proved on another path
            rkey = None
            if not o.quants and goal is not TRUE:
                rkey = (goal.id, tuple(sorted(p.id for p in solve.relevant(o.pc, goal))))
            if rkey is not None and rkey in proved:
                r = solve.Result("proved", "same")
            elif left <= 0 and goal is not TRUE:
                r = solve.Result("unknown", "budget")
            else:
                pc = list(o.pc)
                P = Prover(min(per_obl, max(left, 1.0)))
                r = None
                if o.quants and goal is not TRUE:
                    P0 = Prover(1.0)
                    P0.light = True
                    r = P0.prove(pc, goal)
                    if r.status != "proved":
                        # first only with the instances that the goal names
                        P0 = Prover(4.0)
                        P0.light = True
                        r = P0.prove(pc + instantiate(o.quants, pc, goal, 3, focus=True), goal)
                    if r.status != "proved":
                        pc = pc + instantiate(o.quants, pc, goal)
                        r = P.prove(pc, goal)
                else:
                    r = P.prove(pc, goal)
            seen[key] = r
            if rkey is not None and r.status == "proved":
                proved.add(rkey)
            d = {"name": o.name, "kind": o.kind, "status": r.status, "backend": r.backend,
                 "s": round(time.time() - t1, 3)}
            if r.status != "proved":
                d["goal"] = show(goal, 6)[:1500]
                d["pc"] = [show(p, 4)[:300] for p in o.pc][:40]
                m = r.model
                d["model"] = model_env(m)
                try:
                    # array cells named by the model
                    R = []
                    sn = set()
                    for t in [goal] + list(o.pc):
                        rds(t, R, sn)
                    for x in R:
                        idx = [eval_ints(a, m or {}) for a in x.args[1:]]
                        if None not in idx and x in (m or {}):
                            d["model"]["%s[%s]" % (x.args[0], ",".join(map(str, idx)))] = float(m[x])
                except Exception:
                    pass
                res["status"] = "failed"
            res["obligations"].append(d)
    except Unsupported as e:
        res["status"] = "unsupported"
        res["error"] = str(e)
        if os.environ.get("VF_TRACE"):
            traceback.print_exc()
    except (RecursionError, MemoryError) as e:
        res["status"] = "unsupported"
        res["error"] = repr(e)
    except Exception as e:
        res["status"] = "unsupported"
        res["error"] = repr(e) + "\n" + traceback.format_exc()[-1500:]
    res["s"] = round(time.time() - t0, 3)
    res["solver"] = dict(solve.STATS)
    return res


if __name__ == "__main__":
    ll, h, budget, per, opts = sys.argv[1:6]
    r = verify(ll, h, float(budget), float(per), json.loads(opts))
    print(json.dumps(r))
