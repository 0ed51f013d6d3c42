"""Discharging proof obligations:  facts |- goal.

Back ends, in this order:
  simp   structural normalisation (hash-consed terms)
  ring   identity of rational functions (multivariate polynomial arithmetic over Q,
         square roots as algebraic elements), after case analysis on conditionals
  z3     SMT (mixed linear/nonlinear arithmetic, uninterpreted functions)
  cvc5   SMT, second opinion when z3 gives up
"""
import time
from fractions import Fraction
import z3
from .terms import *

STATS = {"queries": 0, "solver_s": 0.0}


class Overflow(Exception):
    pass


LIMIT = 60000

# --------------------------------------------------------------------------
# polynomials: dict  mono -> Fraction ; mono = tuple of (atom id, exp) sorted


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


def pmul(a, b):
    if len(a) * len(b) > LIMIT * 4:
        raise Overflow()
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mmul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    if len(r) > LIMIT:
        raise Overflow()
    return r


PONE = {(): Fraction(1)}


def ppow(a, n):
    r = PONE
    for _ in range(n):
        r = pmul(r, a)
    return r


def pkey(p):
    """normalised (monic in the leading monomial) key and leading coefficient"""
    items = sorted(p.items())
    c = items[-1][1]
    return tuple((m, v / c) for m, v in items), c


class Rat(object):
    """num / prod(factor^exp) with factors given by key (a normalised polynomial)"""
    __slots__ = ("n", "d")

    def __init__(self, n, d):
        self.n, self.d = n, d


class Ring(object):
    def __init__(self, opaque=None):
        self.memo = {}
        self.atoms = {}
        self.opaque = opaque or {}

    def atom(self, t):
        self.atoms[t.id] = t
        return Rat({((t.id, 1),): Fraction(1)}, {})

    def fac(self, d):
        r = PONE
        for k, e in d.items():
            r = pmul(r, ppow(dict(k), e))
        return r

    def conv(self, t):
        r = self.memo.get(t.id)
        if r is not None:
            return r
        # iterative post-order to avoid deep recursion
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in self.memo:
                stack.pop()
                continue
            if x.op in ("add", "mul", "div") and x.id not in self.opaque:
                todo = [c for c in x.args if c.id not in self.memo]
                if todo:
                    stack.extend(todo)
                    continue
                a, b = self.memo[x.args[0].id], self.memo[x.args[1].id]
                self.memo[x.id] = getattr(self, "r" + x.op)(a, b)
            elif x.op == "num":
                self.memo[x.id] = Rat({(): x.args[0]} if x.args[0] else {}, {})
            else:
                self.memo[x.id] = self.atom(x)
            stack.pop()
        return self.memo[t.id]

    def radd(self, a, b):
        if a.d == b.d:
            return Rat(padd(a.n, b.n), a.d)
        if not a.n:
            return b
        if not b.n:
            return a
        l = dict(a.d)
        for k, e in b.d.items():
            if l.get(k, 0) < e:
                l[k] = e
        fa = {k: e - a.d.get(k, 0) for k, e in l.items() if e > a.d.get(k, 0)}
        fb = {k: e - b.d.get(k, 0) for k, e in l.items() if e > b.d.get(k, 0)}
        return Rat(padd(pmul(a.n, self.fac(fa)), pmul(b.n, self.fac(fb))), l)

    def rmul(self, a, b):
        d = dict(a.d)
        for k, e in b.d.items():
            d[k] = d.get(k, 0) + e
        return Rat(pmul(a.n, b.n), d)

    def rdiv(self, a, b):
        # a / b = a * prod(bd) / bn
        if not b.n:
            raise ZeroDivisionError()
        n = a.n
        d = dict(a.d)
        for k, e in b.d.items():
            c = min(e, d.get(k, 0))
            if c:
                d[k] -= c
                if not d[k]:
                    del d[k]
            if e - c:
                n = pmul(n, ppow(dict(k), e - c))
        if len(b.n) == 1:
            (m, c), = b.n.items()
            n = {mm: v / c for mm, v in n.items()}
            for a_, e in m:
                k = ((((a_, 1),), Fraction(1)),)
                d[k] = d.get(k, 0) + e
        else:
            k, c = pkey(b.n)
            n = {mm: v / c for mm, v in n.items()}
            d[k] = d.get(k, 0) + 1
        return Rat(n, d)

    def reduce(self, p):
        """eliminate even powers of square root atoms from the polynomial p (up to a
        nonzero denominator); returns a polynomial that is 0 iff .. (sufficient)"""
        while True:
            cand = None
            for m in p:
                for a, e in m:
                    if e >= 2:
                        t = self.atoms[a]
                        if t.op in ("fn:sqrt",) and (cand is None or a > cand):
                            cand = a
            if cand is None:
                return p
            arg = self.conv(self.atoms[cand].args[0])
            D = self.fac(arg.d)
            groups = {}
            kmax = 0
            for m, c in p.items():
                e = dict(m).get(cand, 0)
                rest = tuple(x for x in m if x[0] != cand)
                h = e // 2
                kmax = max(kmax, h)
                g = groups.setdefault((h, e % 2), {})
                g[rest] = g.get(rest, 0) + c
            r = {}
            for (h, odd), g in groups.items():
                q = pmul(g, pmul(ppow(arg.n, h), ppow(D, kmax - h)))
                if odd:
                    q = pmul(q, {((cand, 1),): Fraction(1)})
                r = padd(r, q)
            p = r

    def is_zero(self, t):
        r = self.conv(t)
        if not r.n:
            return True
        return not self.reduce(r.n)


# --------------------------------------------------------------------------
# z3 translation


class Z3(object):
    def __init__(self, linear=False):
        self.linear = linear
        self.nonlin_int = False
        self.nonlin_real = False
        self.memo = {}
        self.side = []
        self.fns = {}

    def conv(self, t):
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in self.memo:
                stack.pop()
                continue
            todo = [c for c in children(x) if c.id not in self.memo]
            if todo:
                stack.extend(todo)
                continue
            self.memo[x.id] = self.build(x)
            stack.pop()
        return self.memo[t.id]

    def build(self, t):
        op = t.op
        c = lambda i: self.memo[t.args[i].id]
        if op == "num":
            f = t.args[0]
            return z3.IntVal(f.numerator) if t.sort == "I" and f.denominator == 1 else z3.RealVal(str(f))
        if op == "var":
            n = str(t.args[0])
            return {"R": z3.Real, "I": z3.Int, "B": z3.Bool}[t.sort](n)
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "poly":
            den = 1
            import math
            for m, k in t.args:
                den = den * k.denominator // math.gcd(den, k.denominator)
            r = None
            for m, k in t.args:
                x = None
                if len(m) > 1:
                    self.nonlin_int = True
                if self.linear and len(m) > 1:
                    x = z3.Int("mono!" + "!".join(str(a.id) for a in m))
                    m = ()
                for a in m:
                    y = self.memo[a.id]
                    x = y if x is None else x * y
                if den == 1:
                    kk = z3.IntVal(k.numerator)
                else:
                    kk = z3.RealVal(str(k))
                    if x is not None:
                        x = z3.ToReal(x) if x.is_int() else x
                x = kk if x is None else (x if k == 1 else kk * x)
                r = x if r is None else r + x
            return r
        if op == "idiv":
            return c(0) / z3.IntVal(t.args[1])
        if op == "imod":
            return c(0) % z3.IntVal(t.args[1])
        if op == "divis":
            return c(0) % z3.IntVal(t.args[1]) == 0
        if op == "ige0":
            return c(0) >= 0
        if op == "ieq0":
            return c(0) == 0
        if op == "add":
            return c(0) + c(1)
        if op == "mul":
            if t.args[0].op != "num" and t.args[1].op != "num":
                self.nonlin_real = True
                if self.linear:
                    return z3.Real("mul!%d" % t.id)
            return c(0) * c(1)
        if op == "div":
            # total function: introduce a quotient variable
            self.nonlin_real = True
            if self.linear:
                return z3.Real("div!%d" % t.id)
            q = z3.FreshReal("q")
            self.side.append(z3.Implies(c(1) != 0, q * c(1) == c(0)))
            return q
        if op == "lt":
            return c(0) < c(1)
        if op == "eq":
            return c(0) == c(1)
        if op == "not":
            return z3.Not(c(0))
        if op == "and":
            return z3.And(*[self.memo[a.id] for a in t.args])
        if op == "or":
            return z3.Or(*[self.memo[a.id] for a in t.args])
        if op == "ite":
            return z3.If(c(0), c(1), c(2))
        if op == "toreal":
            return z3.ToReal(c(0)) if c(0).is_int() else c(0)
        if op == "floor":
            return z3.ToInt(c(0))
        if self.linear and t.args and op != "div":
            args = [a for a in t.args if isinstance(a, T)]
            key = (op,) + tuple(a for a in t.args if not isinstance(a, T)) + tuple(a.sort for a in args) + (t.sort,)
            if args:
                srt = {"R": z3.RealSort(), "I": z3.IntSort(), "B": z3.BoolSort()}
                zargs = [self.memo[a.id] for a in args]
                zargs = [z3.ToReal(z) if a.sort == "R" and z.is_int() else z for a, z in zip(args, zargs)]
                # (an index with rational coefficients is translated as a real)
                key += tuple(str(z.sort()) for z in zargs)
                f = self.fns.get(key)
                if f is None:
                    f = self.fns[key] = z3.Function("f!%d!%s" % (len(self.fns), op), *([z.sort() for z in zargs] + [srt[t.sort]]))
                v = f(*zargs)
                if op == "fn:sqrt":
                    self.side.append(v >= 0)
                    self.nonlin_real = True
                if op == "fn:exp":
                    self.side.append(v > 0)
                if op == "fn:pow":
                    self.side.append(z3.Implies(zargs[0] > 0, v > 0))
                return v
        # uninterpreted: fresh constant + congruence (Ackermann)
        v = z3.FreshConst({"R": z3.RealSort(), "I": z3.IntSort(), "B": z3.BoolSort()}[t.sort], op.replace(":", "_"))
        key = (op,) + tuple(a for a in t.args if not isinstance(a, T))
        args = [a for a in t.args if isinstance(a, T)]
        zargs = [self.memo[a.id] for a in args]
        if op == "fn:sqrt":
            self.side.append(v >= 0)
            self.nonlin_real = True
            if not self.linear:
                self.side.append(z3.Implies(zargs[0] >= 0, v * v == zargs[0]))
        if op == "fn:exp":
            self.side.append(v > 0)
        if op == "fn:pow":
            self.side.append(z3.Implies(zargs[0] > 0, v > 0))
        lst = self.fns.setdefault(key, [])
        for (w, oargs, ozargs) in lst:
            eqs = []
            skip = False
            for a, b, za, zb in zip(args, oargs, zargs, ozargs):
                if a is b:
                    continue
                if a.sort == "I":
                    d = isub(a, b)
                    if d.op == "num":
                        skip = True
                        break
                if a.op == "num" and b.op == "num":
                    skip = True
                    break
                eqs.append(za == zb)
            if not skip:
                self.side.append(z3.Implies(z3.And(*eqs) if eqs else z3.BoolVal(True), v == w))
        lst.append((v, args, zargs))
        return v


class Lin(object):
    """linear relaxation: products and quotients are arbitrary values, the other functions are
    uninterpreted; the translation of a term is shared by all queries"""
    memo = {}
    info = {}
    fns = {}
    sidef = {}
    base = None
    EMPTY = frozenset()

    @classmethod
    def conv(cls, t):
        memo, info = cls.memo, cls.info
        if t.id in memo:
            return memo[t.id]
        if cls.base is None:
            cls.base = Z3(linear=True)
            cls.base.memo = memo
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in memo:
                stack.pop()
                continue
            ch = children(x)
            todo = [c for c in ch if c.id not in memo]
            if todo:
                stack.extend(todo)
                continue
            B = cls.base
            B.nonlin_int = B.nonlin_real = False
            B.side = []
            memo[x.id] = B.build(x)
            sides = set()
            ni, nr = B.nonlin_int, B.nonlin_real
            for c in ch:
                a, b, e = info[c.id]
                sides |= a
                ni = ni or b
                nr = nr or e
            if B.side:
                cls.sidef[x.id] = B.side
                sides.add(x.id)
            info[x.id] = (frozenset(sides) if sides else cls.EMPTY, ni, nr)
            stack.pop()
        return memo[t.id]

    @classmethod
    def assertions(cls, fs):
        """z3 assertions, nonlinear integers?, nonlinear reals?"""
        out = [cls.conv(f) for f in fs]
        sides = set()
        ni = nr = False
        for f in fs:
            a, b, e = cls.info[f.id]
            sides |= a
            ni = ni or b
            nr = nr or e
        for i in sides:
            out += cls.sidef[i]
        return out, ni, nr

    @classmethod
    def reset(cls):
        if len(cls.memo) > 400000:
            cls.memo.clear()
            cls.info.clear()
            cls.sidef.clear()


class Full(object):
    """the exact translation, shared by all queries: congruence of the other functions is added
    per query for the applications that occur"""
    memo = {}
    info = {}          # side terms, ids of function applications
    sidef = {}
    apps = {}
    base = None

    @classmethod
    def conv(cls, t):
        memo, info = cls.memo, cls.info
        if t.id in memo:
            return memo[t.id]
        if cls.base is None:
            cls.base = Z3()
            cls.base.memo = memo
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in memo:
                stack.pop()
                continue
            ch = children(x)
            todo = [c for c in ch if c.id not in memo]
            if todo:
                stack.extend(todo)
                continue
            B = cls.base
            B.side = []
            B.fns = {}
            memo[x.id] = B.build(x)
            sides = set()
            apps = set()
            for c in ch:
                a, b = info[c.id]
                sides |= a
                apps |= b
            if B.side:
                cls.sidef[x.id] = B.side
                sides.add(x.id)
            for k, l in B.fns.items():
                cls.apps[x.id] = (k,) + l[0]
                apps.add(x.id)
            info[x.id] = (frozenset(sides), frozenset(apps))
            stack.pop()
        return memo[t.id]

    @classmethod
    def assertions(cls, fs):
        out = [cls.conv(f) for f in fs]
        sides = set()
        apps = set()
        for f in fs:
            a, b = cls.info[f.id]
            sides |= a
            apps |= b
        for i in sorted(sides):
            out += cls.sidef[i]
        groups = {}
        for i in sorted(apps):
            k, v, args, zargs = cls.apps[i]
            for (w, oargs, ozargs) in groups.setdefault(k, []):
                e = congruence(args, zargs, oargs, ozargs)
                if e is not None:
                    out.append(z3.Implies(z3.And(*e) if e else z3.BoolVal(True), v == w))
            groups[k].append((v, args, zargs))
        return out

    @classmethod
    def reset(cls):
        if len(cls.memo) > 400000:
            for d in (cls.memo, cls.info, cls.sidef, cls.apps):
                d.clear()


def congruence(args, zargs, oargs, ozargs):
    eqs = []
    for a, b, za, zb in zip(args, oargs, zargs, ozargs):
        if a is b:
            continue
        if a.sort == "I":
            d = isub(a, b)
            if d.op == "num":
                return None
        if a.op == "num" and b.op == "num":
            return None
        eqs.append(za == zb)
    return eqs


def expand_ext(t):
    return t


def relevant(pc, goal):
    """facts transitively sharing variables with the goal"""
    vs = set(varset(goal))
    rest = [(p, varset(p)) for p in pc]
    out = []
    changed = True
    while changed:
        changed = False
        nrest = []
        for p, v in rest:
            if not v or (v & vs):
                out.append(p)
                if not v <= vs:
                    vs |= v
                    changed = True
            else:
                nrest.append((p, v))
        rest = nrest
    return out


def z3check(asserts, timeout_ms, tactic=None, want_model=False, shared=False):
    """returns ('unsat'|'sat'|'unknown', model-or-None)"""
    STATS["queries"] += 1
    t0 = time.time()
    s = z3.Solver() if tactic is None else z3.Tactic(tactic).solver()
    s.set("timeout", int(timeout_ms))
    fs, ni, nr = Lin.assertions(asserts)
    if (ni or nr) and shared:
        Full.reset()
        Z = Full
        fs = Full.assertions(asserts)
    elif ni or nr:
        Z = Z3()
        fs = [Z.conv(a) for a in asserts]
        fs += Z.side
    else:
        Z = Lin
    s.add(*fs)
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    m = None
    if r == z3.sat and want_model:
        m = s.model()
        mm = {}
        try:
            for a in asserts:
                for v in varset(a):
                    if v in mm:
                        continue
                    val = m.eval(Z.conv(v), model_completion=True)
                    if v.sort == "B":
                        mm[v] = z3.is_true(val)
                    elif z3.is_int_value(val):
                        mm[v] = Fraction(val.as_long())
                    elif z3.is_rational_value(val):
                        mm[v] = Fraction(val.numerator_as_long(), val.denominator_as_long())
                    else:
                        mm[v] = Fraction(str(val.approx(20).as_fraction()))
        except Exception:
            mm = None
        m = mm
    STATS["solver_s"] += time.time() - t0
    return ("unsat" if r == z3.unsat else "sat" if r == z3.sat else "unknown", m)


def rlt(fs):
    """products of known integer inequalities that only need monomials of the query
    (reformulation-linearisation); every returned fact follows from fs"""
    lits = []
    for f in fs:
        st = [f]
        while st:
            x = st.pop()
            if x.op == "and":
                st.extend(x.args)
            elif x.op == "ige0":
                lits.append(x)
    monos = set()
    seen = set()
    st = list(fs)
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "poly":
            for m, k in x.args:
                if len(m) > 1:
                    monos.add(m)
        st.extend(children(x))
    if not monos:
        return []
    lin = []
    for l in lits:
        p = ipoly(l.args[0])
        if all(len(m) <= 2 for m in p) and len(p) <= 8:
            lin.append(p)
    single = []
    for p in lin:
        vs = [m for m in p if m]
        if len(vs) == 1 and len(vs[0]) == 1 and abs(p.get((), 0)) < 10 ** 9:
            single.append((vs[0][0], p))
    inm = set(a for m in monos for a in m)
    out = []
    done = set()
    for (v, b) in single:
        if v not in inm:
            continue
        for g in lin:
            r = {}
            ok = True
            for m1, c1 in b.items():
                for m2, c2 in g.items():
                    m = tuple(sorted(m1 + m2, key=lambda t: t.id))
                    r[m] = r.get(m, 0) + c1 * c2
            r = {m: c for m, c in r.items() if c}
            nl = [m for m in r if len(m) > 1]
            if not nl or not all(m in monos for m in nl):
                continue
            t = ige0(ifrom({m: Fraction(c) for m, c in r.items()}))
            if t is TRUE or t.id in done:
                continue
            done.add(t.id)
            out.append(t)
            if len(out) > 200:
                return out
    return out


def linear_unsat(fs):
    """contradictory even when products and quotients are arbitrary values"""
    STATS["queries"] += 1
    t0 = time.time()
    A, _, _ = Lin.assertions(list(fs) + rlt(fs))
    s = z3.Solver()
    s.set("timeout", 1500)
    s.add(*A)
    r = s.check() == z3.unsat
    STATS["solver_s"] += time.time() - t0
    return r


_feas_memo = {}
_cores = {}
_guards = {}


def unsat_core(rel):
    """facts of a contradiction of the linear relaxation, or None"""
    A, ni, nr = Lin.assertions(rel)
    s = z3.Solver()
    s.set("timeout", 2000)
    lits = {}
    for x, a in zip(rel, A):
        if x.id not in _guards:
            _guards[x.id] = z3.Bool("fact!%d" % x.id)
        lits[_guards[x.id].get_id()] = x
        s.add(z3.Implies(_guards[x.id], a))
    s.add(*A[len(rel):])
    r = s.check(*[_guards[x.id] for x in rel])
    if r != z3.unsat:
        return None, ni, nr
    return [lits[k.get_id()] for k in s.unsat_core()], ni, nr


def feasible(pc, extra=(), timeout_ms=250):
    """False only if pc /\\ extra is proved contradictory"""
    fs = [x for x in list(pc) + list(extra) if x is not TRUE]
    if any(x is FALSE for x in fs):
        return False
    # syntactic
    ids = set(x.id for x in fs)
    for x in fs:
        if bnot(x).id in ids:
            return False
    ek = frozenset(x.id for x in extra)
    cores = _cores.setdefault(ek, [])
    for c in cores:
        if c <= ids:
            return False
    rel = fs
    if extra:
        g = band(*extra)
        rel = relevant([p for p in pc if p is not TRUE], g) + list(extra)
    key = frozenset(x.id for x in rel)
    r = _feas_memo.get(key)
    if r is None:
        STATS["queries"] += 1
        t0 = time.time()
        core, ni, nr = unsat_core(rel)
        if core is not None:
            r = False
            cores.append(frozenset(x.id for x in core) - ek)
        else:
            r = True
            more = rlt(rel)
            if more:
                s = z3.Solver()
                s.set("timeout", 2000)
                s.add(*Lin.assertions(list(rel) + more)[0])
                r = s.check() != z3.unsat
        STATS["solver_s"] += time.time() - t0
        if r and (timeout_ms >= 1500 and (ni or nr) or nr and not ni):
            r = z3check(rel, timeout_ms, shared=True)[0] != "unsat"
        _feas_memo[key] = r
    return r


def eq_subst(pc, goals):
    """use equations var == term of the facts as substitutions"""
    pc = list(pc)
    changed = True
    rounds = 0
    while changed and rounds < 30:
        changed = False
        rounds += 1
        for i, p in enumerate(pc):
            v = e = None
            if p.op == "eq":
                a, b = p.args
                if a.op == "var" and a not in varset(b):
                    v, e = a, b
                elif b.op == "var" and b not in varset(a):
                    v, e = b, a
            elif p.op == "ieq0":
                poly = ipoly(p.args[0])
                for m, c in poly.items():
                    if len(m) == 1 and m[0].op == "var" and abs(c) == 1:
                        rest = {k: x for k, x in poly.items() if k != m}
                        rr = ifrom({k: -qd(x, c) for k, x in rest.items()})
                        if m[0] not in varset(rr):
                            v, e = m[0], rr
                            break
            if v is not None:
                memo = {}
                env = {v: e}
                pc = [subst(q, env, memo) for j, q in enumerate(pc) if j != i]
                goals = [subst(g, env, memo) for g in goals]
                changed = True
                break
    return [p for p in pc if p is not TRUE], goals


def ite_conds(t, out=None):
    """atomic conditions of the conditionals inside t, outermost last (DAG order)"""
    seen = set()
    order = []
    stack = [(t, False)]
    while stack:
        x, done = stack.pop()
        if done:
            if x.op == "ite":
                order.append(x.args[0])
            continue
        if x.id in seen:
            continue
        seen.add(x.id)
        stack.append((x, True))
        for c in children(x):
            if c.id not in seen:
                stack.append((c, False))
    res = []
    s2 = set()
    for c in order:
        if c.id not in s2:
            s2.add(c.id)
            res.append(c)
    return res


def atoms_of(c):
    if c.op in ("and", "or", "not"):
        r = []
        for a in c.args:
            r += atoms_of(a)
        return r
    return [c]


def shared_cuts(goal):
    """sets of subterms both sides share, to be treated as opaque atoms"""
    from . import sweep
    ra = {x.id for x in sweep.postorder([goal.args[0]])}
    sh = {x.id: x for x in sweep.postorder([goal.args[1]]) if x.id in ra and x.sort == "R" and x.op not in ("num", "var")}
    cuts = []
    if sh:
        cuts.append(sh)
        c2 = {i: x for i, x in sh.items() if x.op == "div"}
        if c2 and len(c2) < len(sh):
            cuts.append(c2)
    return cuts + [{}]


class Result(object):
    def __init__(self, status, backend, model=None, detail=""):
        self.status, self.backend, self.model, self.detail = status, backend, model, detail


class Signs(object):
    """signs that follow from the structure of a term: squares, roots, sums and
    products of terms with a known sign"""

    def __init__(self, pc):
        self.facts = {p.id for p in pc}
        for p in pc:
            if p.op == "and":
                self.facts |= {a.id for a in p.args}
        self.memo = {}

    def given(self, c):
        r = Signs([c])
        r.facts |= self.facts
        return r

    def _memo(self, kind, t, f):
        k = (kind, t.id)
        if k not in self.memo:
            self.memo[k] = False
            self.memo[k] = f(t)
        return self.memo[k]

    def _factors(self, t):
        out = []
        st = [t]
        while st:
            x = st.pop()
            if x.op == "mul":
                st.extend(x.args)
            else:
                out.append(x)
        return out

    def nn(self, t):
        """0 <= t"""
        return self._memo("nn", t, self._nn)

    def _nn(self, t):
        if t.sort != "R":
            return False
        if t.op == "num":
            return t.args[0] >= 0
        if t.op == "fn:sqrt":
            return self.nn(t.args[0])
        if t.op == "add":
            return all(self.nn(a) for a in t.args)
        if t.op == "div":
            return self.nn(t.args[0]) and self.nn(t.args[1])
        if t.op == "ite":
            c, a, b = t.args
            return (self.nn(a) or self.given(c).nn(a)) and (self.nn(b) or self.given(bnot(c)).nn(b))
        if t.op == "mul":
            odd = {}
            for x in self._factors(t):
                if x.id in odd:
                    del odd[x.id]
                else:
                    odd[x.id] = x
            return all(self.nn(x) for x in odd.values())
        return bnot(lt(t, R0)).id in self.facts or lt(R0, t).id in self.facts

    def pos(self, t):
        """0 < t"""
        return self._memo("pos", t, self._pos)

    def _pos(self, t):
        if t.sort != "R":
            return False
        if t.op == "num":
            return t.args[0] > 0
        if lt(R0, t).id in self.facts:
            return True
        if t.op == "fn:sqrt":
            return self.pos(t.args[0])
        if t.op == "add":
            return all(self.nn(a) for a in t.args) and any(self.pos(a) for a in t.args)
        if t.op in ("div", "mul"):
            return all(self.pos(a) for a in t.args)
        if t.op == "ite":
            c, a, b = t.args
            return (self.pos(a) or self.given(c).pos(a)) and (self.pos(b) or self.given(bnot(c)).pos(b))
        return False

    def holds(self, g):
        if g is TRUE:
            return True
        if g.op == "and":
            return all(self.holds(a) for a in g.args)
        if g.op == "or":
            for k, a in enumerate(g.args):
                if self.holds(a):
                    return True
                rest = band(*[bnot(b) for j, b in enumerate(g.args) if j != k])
                if rest is not TRUE and len(g.args) <= 6 and self.given(rest).holds(a):
                    return True
            return False
        if g.op == "lt" and g.args[0] is R0:
            return self.pos(g.args[1])
        if g.op == "not":
            a = g.args[0]
            if a.op == "lt" and a.args[1] is R0:
                return self.nn(a.args[0])
            if a.op == "eq" and a.args[0].sort == "R" and a.args[1] is R0:
                return self.pos(a.args[0])
            if a.op == "eq" and a.args[0].sort == "R" and a.args[0] is R0:
                return self.pos(a.args[1])
        return False


class Prover(object):
    def __init__(self, timeout=20.0, opaque=None):
        self.budget = timeout
        self.deadline = None
        self.splits = 0

    def left(self):
        return max(0.0, self.deadline - time.time())

    def prove(self, pc, goal, want_model=True):
        t0 = time.time()
        self.deadline = t0 + self.budget
        self.splits = 0
        pc = list(pc)
        while goal is FALSE and pc:
            # unreachable branch: refute the last decision
            goal = bnot(pc.pop())
        r = self._prove(pc, goal, want_model)
        r.time = time.time() - t0
        return r

    def _prove(self, pc, goal, want_model):
        if goal is TRUE:
            return Result("proved", "simp")
        if any(p is goal for p in pc):
            return Result("proved", "simp")
        if Signs(pc).holds(goal):
            return Result("proved", "signs")
        pc, (goal,) = eq_subst(pc, [goal])
        if goal is TRUE:
            return Result("proved", "simp")
        if any(p is FALSE for p in pc):
            return Result("proved", "simp")
        if goal.op == "and":
            bk = set()
            rest = []
            for g in goal.args:
                if any(p is g for p in pc):
                    continue
                if linear_unsat(relevant(pc, g) + [bnot(g)]):
                    bk.add("z3-lin")
                    continue
                rest.append(g)
            if len(rest) > 1 and not self.light and self.left() > 1.0:
                g = band(*rest)
                r = self._sweep(relevant(pc, g), g)
                if r is not None:
                    return r
            for g in rest:
                r = self._prove(pc, g, want_model)
                if r.status != "proved":
                    return r
                bk.add(r.backend)
            return Result("proved", "+".join(sorted(bk)) or "simp")
        rel = relevant(pc, goal)
        if goal.op in ("and", "or", "not", "lt"):
            sg = Signs(rel)
            rest = [g for g in (goal.args if goal.op == "and" else [goal]) if not sg.holds(g)]
            if not rest:
                return Result("proved", "signs")
            goal = band(*rest)
        if goal.op == "eq":
            try:
                R = Ring()
                if R.is_zero(sub(goal.args[0], goal.args[1])):
                    return Result("proved", "ring")
            except (Overflow, ZeroDivisionError):
                pass
        # quick attempt on the linear relaxation
        if linear_unsat(rel + [bnot(goal)]):
            return Result("proved", "z3-lin")
        # quick SMT attempt
        model = None
        st, m = z3check(rel + [bnot(goal)], min(1500, 1000 * self.left() + 1), want_model=want_model)
        if st == "unsat":
            return Result("proved", "z3")
        if st == "sat":
            model = m
            # the model may be spurious only through uninterpreted functions; report it
            if not self._has_uf([goal] + rel):
                return Result("failed", "z3", m)
        if not self.light and self.left() > 1.0:
            r = self._sweep(rel, goal)
            if r is not None:
                return r
        r = self._split(rel, goal, want_model)
        if r.status == "proved":
            return r
        if r.status == "unknown" and self.left() > 0.5:
            st, m = z3check(rel + [bnot(goal)], 1000 * self.left(), want_model=want_model)
            if st == "unsat":
                return Result("proved", "z3")
            if st == "sat":
                return Result("failed", "z3", m)
        if r.model is None and model is not None:
            r.model = model
        return r

    light = False

    def _sweep(self, rel, goal):
        from . import sweep
        o = sweep.postorder([goal] + rel)
        if len(o) < 25 or not any(x.op in ("ite", "fn:sqrt", "div") for x in o):
            return None
        try:
            r = sweep.Sweep(rel, goal, min(0.5 * self.left(), 50.0)).run()
        except (Overflow, ZeroDivisionError, RecursionError):
            return None
        if r is None:
            return None
        pc, g = r
        if g is TRUE:
            return Result("proved", "sweep")
        if g is goal:
            return None
        self.light = True
        d = self.deadline
        pc = [p for p in pc if p is not TRUE]
        parts = list(g.args) if g.op == "and" else [g]
        bk = set()
        try:
            inpc = None
            for k, c in enumerate(parts):
                if any(p is c for p in pc):
                    continue
                done = False
                if c.op in ("lt", "not", "eq", "or") and d - time.time() > 2:
                    # abstract the terms the goal shares with the facts
                    if inpc is None:
                        inpc = {x.id for x in sweep.postorder(pc)}
                    env = {x: rvar("$a%d" % x.id) for x in sweep.postorder([c])
                           if x.id in inpc and x.sort == "R" and x.op not in ("num", "var")}
                    if env:
                        memo = {}
                        g2 = subst(c, env, memo)
                        pc2 = [subst(p, env, memo) for p in pc]
                        self.deadline = time.time() + 2.0
                        if g2 is TRUE or (g2 is not FALSE and self._prove([p for p in pc2 if p is not TRUE], g2, False).status == "proved"):
                            bk.add("abs")
                            done = True
                if not done:
                    self.deadline = time.time() + (d - time.time()) / (2.0 * (len(parts) - k))
                    r = self._prove(pc, c, False)
                    if r.status != "proved":
                        return None
                    bk.add(r.backend)
        finally:
            self.light = False
            self.deadline = d
        return Result("proved", "+".join(["sweep"] + sorted(bk)))

    def _has_uf(self, ts):
        seen = set()
        st = list(ts)
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op.startswith("fn:") or x.op in ("rd",):
                return True
            st.extend(children(x))
        return False

    def _split(self, pc, goal, want_model):
        """case analysis on the conditionals of the goal"""
        if goal is TRUE:
            return Result("proved", "simp")
        if self.left() <= 0 or self.splits > 4000:
            return Result("unknown", "timeout")
        conds = ite_conds(goal)
        cond = None
        if conds:
            cond = atoms_of(conds[0])[0]
        if cond is None:
            return self._leaf(pc, goal, want_model)
        backends = set()
        for lit in (cond, bnot(cond)):
            if not feasible(pc, (lit,)):
                continue
            self.splits += 1
            val = TRUE if lit is cond else FALSE
            env = {cond: val, bnot(cond): bnot(val)}
            memo = {}
            g = subst(goal, env, memo)
            npc = pc + [lit]
            r = self._split(npc, g, want_model)
            if r.status != "proved":
                return r
            backends.add(r.backend)
        return Result("proved", "+".join(sorted(b for b in backends if b)) or "split")

    def _leaf(self, pc, goal, want_model):
        if goal is TRUE:
            return Result("proved", "simp")
        if goal.op == "and":
            bk = set()
            for g in goal.args:
                r = self._leaf(pc, g, want_model)
                if r.status != "proved":
                    return r
                bk.add(r.backend)
            return Result("proved", "+".join(sorted(bk)))
        if any(p is goal for p in pc):
            return Result("proved", "simp")
        pc, (goal,) = eq_subst(pc, [goal])
        if goal is TRUE:
            return Result("proved", "simp")
        if goal.op == "eq":
            for cut in shared_cuts(goal):
                try:
                    if Ring(opaque=cut).is_zero(sub(goal.args[0], goal.args[1])):
                        return Result("proved", "ring")
                except (Overflow, ZeroDivisionError):
                    pass
        rel = relevant(pc, goal)
        q = rel + [bnot(goal)]
        if linear_unsat(q):
            return Result("proved", "z3-lin")
        for tac, ms in ((None, 2000), ("qfnra-nlsat", 3000), (None, 15000)):
            if self.left() <= 0:
                return Result("unknown", "timeout")
            if tac and self._has_int(q):
                continue
            st, m = z3check(q, min(ms, 1000 * self.left() + 1), tac, want_model)
            if st == "unsat":
                return Result("proved", "z3" if not tac else "z3-nlsat")
            if st == "sat":
                return Result("failed", "z3", m)
        return Result("unknown", "z3")

    def _has_int(self, ts):
        return any(v.sort != "R" for t in ts for v in varset(t))
