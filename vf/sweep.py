"""Equivalence sweeping: merge subterms that the path condition proves equal, bottom up.

Candidates are found by evaluating the term DAG at random points that satisfy the path
condition; every merge is proved (exact rational arithmetic, or a small case analysis on the
two terms with everything they share abstracted to fresh variables).  The swept goal is
equivalent to the original one under the path condition, so a proof of it is a proof of
the original goal; a failure to prove it says nothing."""
import math
import random
import time
import zlib

from . import terms
from .terms import *  # noqa
from .terms import T, rebuild, children, mk, TRUE, FALSE

NS = 10


def postorder(roots):
    out = []
    seen = set()
    stack = [(r, False) for r in roots]
    while stack:
        x, done = stack.pop()
        if done:
            out.append(x)
            continue
        if x.id in seen:
            continue
        seen.add(x.id)
        stack.append((x, True))
        for c in children(x):
            if c.id not in seen:
                stack.append((c, False))
    return out


def _h(*a):
    return (zlib.crc32(repr(a).encode()) % 100003) / 20000.0 - 2.0


def _rnd(v):
    return "%.9g" % v if isinstance(v, float) else v


def ev(x, val):
    """value of node x given the values of its children (None: undefined)"""
    op = x.op
    a = x.args
    if op == "num":
        return float(a[0])
    if op == "true":
        return True
    if op == "false":
        return False
    if op == "poly":
        s = 0
        for m, c in a:
            p = c
            for t in m:
                v = val.get(t.id)
                if v is None:
                    return None
                p = p * v
            s = s + p
        return s
    vs = [val.get(t.id) if isinstance(t, T) else t for t in a]
    if op == "ite":
        if vs[0] is None:
            return None
        return vs[1] if vs[0] else vs[2]
    if op == "and":
        if any(v is False for v in vs):
            return False
        return None if None in vs else True
    if op == "or":
        if any(v is True for v in vs):
            return True
        return None if None in vs else False
    if None in vs:
        return None
    try:
        if op == "add":
            return vs[0] + vs[1]
        if op == "mul":
            return vs[0] * vs[1]
        if op == "div":
            return vs[0] / vs[1] if abs(vs[1]) > 1e-12 else None
        if op == "lt":
            return vs[0] < vs[1]
        if op == "eq":
            return vs[0] == vs[1]
        if op == "not":
            return not vs[0]
        if op == "idiv":
            return int(vs[0] // vs[1])
        if op == "imod":
            return int(vs[0] % vs[1])
        if op == "ige0":
            return vs[0] >= 0
        if op == "ieq0":
            return vs[0] == 0
        if op == "toreal":
            return float(vs[0])
        if op == "floor":
            return int(math.floor(vs[0]))
        if op == "fn:sqrt":
            return math.sqrt(vs[0]) if vs[0] >= 0 else None
        if op == "fn:exp":
            return math.exp(vs[0])
        if op == "fn:log":
            return math.log(vs[0]) if vs[0] > 0 else None
        if op == "fn:pow":
            return math.pow(vs[0], vs[1]) if vs[0] > 0 else None
    except (OverflowError, ValueError, TypeError, ZeroDivisionError):
        return None
    if op in ("inf", "ninf", "nan"):
        return None
    if x.sort == "B":
        return _h(op, *[_rnd(v) for v in vs]) > 0
    if x.sort == "R":
        return _h(op, *[_rnd(v) for v in vs])
    return int(1000 * _h(op, *[_rnd(v) for v in vs]))


def sample(order, pc, rng, pos):
    val = {}
    for x in order:
        if x.op == "var":
            if x.sort == "R":
                r = rng.random()
                v = rng.uniform(0.1, 3.0) if r < 0.7 else rng.uniform(0.01, 20.0)
                if x.id not in pos and rng.random() < 0.5:
                    v = -v
                val[x.id] = v
            elif x.sort == "B":
                val[x.id] = rng.random() < 0.5
            else:
                val[x.id] = rng.randrange(0, 9)
        else:
            val[x.id] = ev(x, val)
    good = sum(1 for p in pc if val.get(p.id) is True)
    return good, val


def close(a, b):
    return abs(a - b) <= 1e-8 * (1e-6 + abs(a) + abs(b))


class Sweep(object):
    def __init__(self, pc, goal, budget):
        self.deadline = time.time() + budget
        self.pc = list(pc)
        self.goal = goal
        self.merged = 0
        self.tried = 0

    def run(self):
        from . import solve
        self.solve = solve
        roots = self.pc + [self.goal]
        order = postorder(roots)
        if len(order) > 6000:
            return None
        rng = random.Random(12345)
        pos = set()
        for p in self.pc:
            if p.op == "lt" and p.args[0].op == "num" and p.args[0].args[0] >= 0 and p.args[1].op == "var":
                pos.add(p.args[1].id)
        best = []
        t0 = time.time()
        for k in range(400):
            g, v = sample(order, self.pc, rng, pos)
            best.append((-g, k, v))
            if len(best) > 3 * NS:
                best.sort(key=lambda e: e[:2])
                del best[NS:]
            if sum(1 for b in best if -b[0] == len(self.pc)) >= NS or time.time() - t0 > 3:
                break
        best.sort(key=lambda e: e[:2])
        self.vals = [b[2] for b in best[:NS]]
        self.sig = {}
        for x in order:
            self.sig[x.id] = [v[x.id] for v in self.vals]
        self.facts = set()
        self.npc = list(self.pc)
        for rnd in (0, 1):
            # the second round rewrites the facts in the context of the facts
            self.map = {}
            self.buckets = {}
            self.conds = {}
            npc = []
            facts = set()
            for p in self.pc:
                self.process(postorder([p]))
                q = self.map[p.id]
                npc.append(q)
                for l in (q.args if q.op == "and" else (q,)):
                    facts.add(l.id)
            for q in npc:
                for l in (q.args if q.op == "and" else (q,)):
                    if l is FALSE or bnot(l).id in facts:
                        return npc, TRUE
            self.facts |= facts
            self.npc = self.npc + npc if rnd else npc
            self.live = True
        self.process(postorder([self.goal]))
        g = self.map[self.goal.id]
        if g.id in self.facts:
            g = TRUE
        return list({q.id: q for q in self.npc}.values()), g

    live = False

    def process(self, nodes):
        for x in nodes:
            if x.id in self.map:
                continue
            y = rebuild(x, lambda c: self.map[c.id]) if children(x) else x
            if y.id not in self.sig:
                self.sig[y.id] = self.sig[x.id]
                # new inner nodes get their values too
                for z in postorder([y]):
                    if z.id not in self.sig:
                        self.sig[z.id] = [self.evs(z, k) for k in range(len(self.vals))]
            if y.op == "ite" and self.live:
                y = self.decide(y)
            if y.sort == "R" and y.op not in ("var",) and time.time() < self.deadline:
                y = self.merge(y)
            elif y.op == "lt" and time.time() < self.deadline:
                y = self.merge_lt(y)
            self.map[x.id] = y

    def evs(self, z, k):
        val = {}
        for c in children(z):
            val[c.id] = self.sig[c.id][k]
        return ev(z, val)

    def decide(self, y):
        c = y.args[0]
        r = self.conds.get(c.id)
        if r is None:
            r = c
            vals = [v for v in self.sig[c.id]]
            if c.id in self.facts:
                r = TRUE
            elif bnot(c).id in self.facts:
                r = FALSE
            elif time.time() < self.deadline:
                if all(v is True for v in vals) and self.implied(c):
                    r = TRUE
                elif all(v is False for v in vals) and self.implied(bnot(c)):
                    r = FALSE
            self.conds[c.id] = r
        if r is TRUE:
            return y.args[1]
        if r is FALSE:
            return y.args[2]
        return y

    def implied(self, c):
        s = self.solve
        rel = s.relevant(self.npc, c)
        if s.linear_unsat(rel + [bnot(c)]):
            return True
        return s.z3check(rel + [bnot(c)], 1000)[0] == "unsat"

    def key(self, x):
        for k, v in enumerate(self.sig[x.id]):
            if isinstance(v, float) and v == v and abs(v) < 1e15:
                return k, v
        return None

    def find(self, x, tag):
        kv = self.key(x)
        if kv is None:
            return [], None
        k, v = kv
        s = "%.5e" % v
        keys = {(tag, k, s), (tag, k, "%.5e" % (v * (1 + 2e-6))), (tag, k, "%.5e" % (v * (1 - 2e-6)))}
        c = []
        for q in keys:
            c += self.buckets.get(q, [])
        sx = self.sig[x.id]
        out = []
        for y in c:
            sy = self.sig[y[0].id]
            n = 0
            for a, b in zip(sx, sy):
                if isinstance(a, float) and isinstance(b, float):
                    if not close(a, b):
                        break
                    n += 1
            else:
                if n >= 3:
                    out.append(y)
        return out, (tag, k, s)

    def merge(self, y):
        cands, key = self.find(y, "r")
        for (c, _) in cands[:4]:
            if c is y:
                return y
            if self.same(y, c):
                self.merged += 1
                return c
        if key is not None:
            self.buckets.setdefault(key, []).append((y, y))
        return y

    def merge_lt(self, y):
        d = sub(y.args[1], y.args[0])
        if d.id not in self.sig:
            for z in postorder([d]):
                if z.id not in self.sig:
                    self.sig[z.id] = [self.evs(z, k) for k in range(len(self.vals))]
        cands, key = self.find(d, "lt")
        for (c, l) in cands[:3]:
            if l is y:
                return y
            if c is d or self.same(d, c):
                return l
        if key is not None:
            self.buckets.setdefault(key, []).append((d, y))
        return y

    def same(self, a, b):
        """prove a == b"""
        if time.time() > self.deadline:
            return False
        self.tried += 1
        s = self.solve
        ra = {x.id for x in postorder([a])}
        rb = postorder([b])
        shared = {x.id: x for x in rb if x.id in ra and x.op not in ("num", "var")}
        try:
            if s.Ring(opaque=shared).is_zero(sub(a, b)):
                return True
        except (s.Overflow, ZeroDivisionError):
            pass
        both = postorder([a, b])
        small = len(both) < 400
        if any(x.op == "ite" for x in both):
            # abstract what the two terms share
            for depth in (0, 1):
                env = {}
                if depth == 0:
                    cut = shared
                else:
                    cut = {i: x for i, x in shared.items() if x.op in ("div", "fn:sqrt", "mul") or x.op.startswith("fn:")}
                for i, x in cut.items():
                    if x.sort == "R":
                        env[x] = rvar("$s%d" % i)
                memo = {}
                g = subst(req(a, b), env, memo)
                if g is TRUE:
                    return True
                pc = [subst(p, env, memo) for p in self.npc] if self.live else []
                P = s.Prover(2.0)
                P.deadline = min(self.deadline, time.time() + 2.0)
                P.light = True
                rel = s.relevant([p for p in pc if p is not TRUE], g)
                if P._split(rel, g, False).status == "proved":
                    return True
            return False
        if small:
            try:
                if s.Ring().is_zero(sub(a, b)):
                    return True
            except (s.Overflow, ZeroDivisionError):
                pass
        return False
