"""Hash-consed terms over mathematical reals (R), integers (I) and booleans (B).

Doubles of the program are interpreted as mathematical reals, machine integers
as mathematical integers (both are listed as assumptions in the evidence).
"""
from fractions import Fraction
import struct

_table = {}
_next = [0]


class T(object):
    __slots__ = ("op", "args", "sort", "id", "_z3", "_vars")

    def __init__(self, op, args, sort):
        self.op = op
        self.args = args
        self.sort = sort
        self._z3 = None
        self._vars = None

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __lt__(self, o):
        return self.id < o.id

    def __repr__(self):
        return show(self)


def mk(op, args, sort):
    key = (op, args, sort)
    t = _table.get(key)
    if t is None:
        t = T(op, args, sort)
        t.id = _next[0]
        _next[0] += 1
        _table[key] = t
    return t


TRUE = mk("true", (), "B")
FALSE = mk("false", (), "B")
INF = mk("inf", (), "R")
NINF = mk("ninf", (), "R")
NAN = mk("nan", (), "R")


def boolc(b):
    return TRUE if b else FALSE


def rationalize(x):
    """the simplest rational that rounds to the double x"""
    f = Fraction(x)
    if f.denominator == 1:
        return f
    # Stern-Brocot via limit_denominator on growing bounds
    d = 1
    for d in (10, 100, 1000, 10**4, 10**5, 10**6, 10**7):
        g = f.limit_denominator(d)
        if g.numerator and float(g) == x:
            return g
    # decimal literal
    s = repr(x)
    g = Fraction(s)
    if float(g) == x:
        return g
    return f


def rc(x):
    if isinstance(x, float):
        if x != x:
            return NAN
        if x == float("inf"):
            return INF
        if x == float("-inf"):
            return NINF
        x = rationalize(x)
    return mk("num", (Fraction(x),), "R")


R0 = rc(0)
R1 = rc(1)
RM1 = rc(-1)


def rvar(name):
    return mk("var", (name,), "R")


def bvar(name):
    return mk("var", (name,), "B")


# ----------------------------------------------------------------------------
# Integers: canonical polynomials with rational coefficients
# ('poly', ((mono, coef), ...)) mono = sorted tuple of atom terms


def qn(c):
    """integral coefficients are kept as Python integers"""
    if type(c) is int or c.denominator != 1:
        return c
    return int(c.numerator)


def qd(a, b):
    return qn(Fraction(a) / b)


_ic = {}


def ic(n):
    t = _ic.get(n)
    if t is None:
        t = mk("num", (qn(n) if not isinstance(n, bool) else int(n),), "I")
        _ic[n] = t
    return t


I0 = ic(0)
I1 = ic(1)


def ivar(name):
    return mk("var", (name,), "I")


def ipoly(t):
    """dict mono->coef"""
    if t.op == "num":
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == "poly":
        return dict(t.args)
    return {(t,): 1}


def ifrom(p):
    p = {m: c if type(c) is int else qn(c) for m, c in p.items() if c}
    if not p:
        return I0
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return ic(c)
        if len(m) == 1 and c == 1:
            return m[0]
    items = tuple(sorted(p.items(), key=lambda mc: (len(mc[0]), tuple(a.id for a in mc[0]))))
    return mk("poly", items, "I")


def iadd(a, b):
    if a.op == "num" and b.op == "num":
        return ic(a.args[0] + b.args[0])
    p = ipoly(a)
    for m, c in ipoly(b).items():
        p[m] = p.get(m, 0) + c
    return ifrom(p)


_isc = {}
_ig0 = {}


def iscale(a, k):
    if k == 1:
        return a
    key = (a.id, k)
    r = _isc.get(key)
    if r is None:
        r = _isc[key] = ifrom({m: c * k for m, c in ipoly(a).items()})
    return r


def isub(a, b):
    return iadd(a, iscale(b, -1))


def imul(a, b):
    if a.op == "num":
        return iscale(b, a.args[0])
    if b.op == "num":
        return iscale(a, b.args[0])
    pa, pb = ipoly(a), ipoly(b)
    r = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = tuple(sorted(m1 + m2, key=lambda t: t.id))
            r[m] = r.get(m, 0) + c1 * c2
    return ifrom(r)


def iconst(t):
    return t.op == "num"


def ival(t):
    v = t.args[0]
    assert v.denominator == 1, t
    return v.numerator


def idivc(a, k):
    """floor division by positive constant"""
    if a.op == "num":
        return ic(a.args[0].numerator // (k * a.args[0].denominator))
    if k == 1:
        return a
    p = ipoly(a)
    if all(qd(c, k).denominator == 1 for c in p.values()):
        return iscale(a, Fraction(1, k))
    # split the multiples of k
    q = {m: qd(c, k) for m, c in p.items() if qd(c, k).denominator == 1}
    r = {m: c for m, c in p.items() if qd(c, k).denominator != 1}
    base = mk("idiv", (ifrom(r), k), "I")
    return iadd(ifrom(q), base)


def imodc(a, k):
    if a.op == "num":
        return ic(a.args[0].numerator % k)
    if k == 1:
        return I0
    p = ipoly(a)
    r = {m: c for m, c in p.items() if qd(c, k).denominator != 1
         and not (len(m) == 1 and m[0].op == "addr" and 64 % k == 0)}
    if not r:
        return I0
    if list(r.keys()) == [()]:
        return ic(r[()].numerator % k)
    return mk("imod", (ifrom(r), k), "I")


def _lcm_den(p):
    import math
    l = 1
    for c in p.values():
        l = l * c.denominator // math.gcd(l, c.denominator)
    return l


def ige0(a):
    """a >= 0"""
    if a.op == "num":
        return boolc(a.args[0] >= 0)
    r = _ig0.get(a.id)
    if r is None:
        r = _ig0[a.id] = _ige0(a)
    return r


def _ige0(a):
    p = ipoly(a)
    l = _lcm_den(p)
    import math
    ints = {m: (c * l).numerator for m, c in p.items()}
    g = 0
    for m, c in ints.items():
        if m != ():
            g = math.gcd(g, c)
    if g > 1:
        k = ints.get((), 0)
        ints = {m: c // g for m, c in ints.items() if m != ()}
        ints[()] = k // g  # floor
    at = a_atoms(ints)
    if len(at) == 1 and len(at[0]) == 1 and at[0][0].op == "ite":
        x = at[0][0]
        f = lambda y: ige0(iadd(iscale(y, ints[at[0]]), ic(ints.get((), 0))))
        return ite(x.args[0], f(x.args[1]), f(x.args[2]))
    t = ifrom(ints)
    return mk("ige0", (t,), "B")


def a_atoms(ints):
    return [m for m in ints if m != ()]


def ile(a, b):
    if a is b:
        return TRUE
    return ige0(isub(b, a))


def ilt(a, b):
    if a is b:
        return FALSE
    return ige0(isub(isub(b, a), I1)) if True else None


def ieq(a, b):
    if a is b:
        return TRUE
    d = isub(a, b)
    if d.op == "num":
        return boolc(d.args[0] == 0)
    p = ipoly(d)
    l = _lcm_den(p)
    at = a_atoms(p)
    if len(at) == 1 and len(at[0]) == 1 and at[0][0].op == "ite":
        x = at[0][0]
        f = lambda y: ieq(iadd(iscale(y, p[at[0]]), ic(p.get((), 0))), I0)
        return ite(x.args[0], f(x.args[1]), f(x.args[2]))
    items = sorted(p.items(), key=lambda mc: (len(mc[0]), tuple(x.id for x in mc[0])), reverse=True)
    import math
    g = 0
    for m, c in items:
        g = math.gcd(g, (c * l).numerator)
    h = 0
    for m, c in items:
        if m != ():
            h = math.gcd(h, (c * l).numerator)
    if h and (p.get((), 0) * l).numerator % h:
        return FALSE
    s = 1 if items[0][1] > 0 else -1
    return mk("ieq0", (ifrom({m: Fraction((c * l).numerator * s, g) for m, c in items}),), "B")


# ----------------------------------------------------------------------------
# Reals


def emin(a, b):
    """minimum of values that may be infinite"""
    xs = {}
    for x in (a, b):
        for y in (x.args if x.op == "min" else (x,)):
            if y.op == "ninf":
                return NINF
            if y.op != "inf":
                xs[y.id] = y
    if not xs:
        return INF
    l = [xs[k] for k in sorted(xs)]
    return l[0] if len(l) == 1 else mk("min", tuple(l), "R")


def expand_min(t):
    r = t.args[0]
    for x in t.args[1:]:
        r = ite(lt(x, r), x, r, True)
    return r


def has_nan(t):
    if t.op in ("ite", "min"):
        return any(has_nan(x) for x in t.args[-2 if t.op == "ite" else 0:])
    return t.op == "nan"


def add(a, b):
    if a.op == "min":
        a = expand_min(a)
    if b.op == "min":
        b = expand_min(b)
    if a.op == "num":
        if b.op == "num":
            return rc(a.args[0] + b.args[0])
        if a.args[0] == 0:
            return b
    if b.op == "num" and b.args[0] == 0:
        return a
    if a.op in ("inf", "ninf", "nan") or b.op in ("inf", "ninf", "nan"):
        return _ext("add", a, b)
    if neg(a) is b:
        return R0
    if a.op == "ite" and has_ext(a):
        return ite(a.args[0], add(a.args[1], b), add(a.args[2], b))
    if b.op == "ite" and has_ext(b):
        return ite(b.args[0], add(a, b.args[1]), add(a, b.args[2]))
    if a.id > b.id:
        a, b = b, a
    return mk("add", (a, b), "R")


def neg(a):
    if a.op == "min":
        a = expand_min(a)
    if a.op == "num":
        return rc(-a.args[0])
    if a.op == "inf":
        return NINF
    if a.op == "ninf":
        return INF
    if a.op == "nan":
        return a
    if a.op == "ite" and has_ext(a):
        return ite(a.args[0], neg(a.args[1]), neg(a.args[2]))
    if a.op == "mul" and a.args[0].op == "num":
        return mul(rc(-a.args[0].args[0]), a.args[1])
    return mk("mul", (RM1, a), "R")


def sub(a, b):
    if a is b and not has_ext(a):
        return R0
    return add(a, neg(b))


def _ext(op, a, b):
    if a.op == "nan" or b.op == "nan":
        return NAN
    if op == "add":
        if a.op in ("inf", "ninf") and b.op in ("inf", "ninf"):
            return a if a is b else NAN
        return a if a.op in ("inf", "ninf") else b
    if op == "mul":
        x, y = (a, b) if a.op in ("inf", "ninf") else (b, a)
        if y.op == "num":
            if y.args[0] == 0:
                return NAN
            return x if y.args[0] > 0 else neg(x)
        if y.op in ("inf", "ninf"):
            return INF if x is y else NINF
        if y.op == "ite":
            return ite(y.args[0], mul(x, y.args[1]), mul(x, y.args[2]))
        return ite(lt(R0, y), x, ite(lt(y, R0), neg(x), NAN))
    if op == "div":
        if a.op in ("inf", "ninf"):
            if b.op in ("inf", "ninf"):
                return NAN
            if b.op == "ite":
                return ite(b.args[0], div(a, b.args[1]), div(a, b.args[2]))
            return ite(le(R0, b), a, neg(a))
        return R0
    raise Exception(op)


def mul(a, b):
    if a.op == "min":
        a = expand_min(a)
    if b.op == "min":
        b = expand_min(b)
    if a.op == "num" and b.op == "num":
        return rc(a.args[0] * b.args[0])
    if b.op == "num":
        a, b = b, a
    if a.op in ("inf", "ninf", "nan") or b.op in ("inf", "ninf", "nan"):
        return _ext("mul", a, b)
    if a.op == "ite" and has_ext(a):
        return ite(a.args[0], mul(a.args[1], b), mul(a.args[2], b))
    if b.op == "ite" and has_ext(b):
        return ite(b.args[0], mul(a, b.args[1]), mul(a, b.args[2]))
    if a.op == "num":
        if a.args[0] == 0:
            return R0
        if a.args[0] == 1:
            return b
        if b.op == "mul" and b.args[0].op == "num":
            return mul(rc(a.args[0] * b.args[0].args[0]), b.args[1])
        return mk("mul", (a, b), "R")
    # pull constants out
    if a.op == "mul" and a.args[0].op == "num":
        return mul(a.args[0], mul(a.args[1], b))
    if b.op == "mul" and b.args[0].op == "num":
        return mul(b.args[0], mul(a, b.args[1]))
    if a.id > b.id:
        a, b = b, a
    return mk("mul", (a, b), "R")


def div(a, b):
    if a.op == "min":
        a = expand_min(a)
    if b.op == "min":
        b = expand_min(b)
    if b.op == "num" and b.args[0] != 0:
        return mul(rc(1 / b.args[0]), a)
    if a.op in ("inf", "ninf", "nan") or b.op in ("inf", "ninf", "nan"):
        return _ext("div", a, b)
    if a.op == "ite" and has_ext(a):
        return ite(a.args[0], div(a.args[1], b), div(a.args[2], b))
    if b.op == "ite" and has_ext(b):
        return ite(b.args[0], div(a, b.args[1]), div(a, b.args[2]))
    if b.op == "num":
        # division by literal zero: +-inf or nan
        if a.op == "num":
            return NAN if a.args[0] == 0 else (INF if a.args[0] > 0 else NINF)
        return mk("div", (a, b), "R")
    if a.op == "mul" and a.args[0].op == "num":
        return mul(a.args[0], div(a.args[1], b))
    if b.op == "mul" and b.args[0].op == "num":
        return mul(rc(1 / b.args[0].args[0]), div(a, b.args[1]))
    return mk("div", (a, b), "R")


def fn(name, *args):
    """uninterpreted / axiomatised real function"""
    args = tuple(expand_min(a) if a.op == "min" else a for a in args)
    if name == "sqrt" and args[0].op == "num":
        v = args[0].args[0]
        if v >= 0:
            import math
            n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if n * n == v.numerator and d * d == v.denominator:
                return rc(Fraction(n, d))
    if name == "pow" and args[1].op == "num":
        e = args[1].args[0]
        if e == 0:
            return R1
        if e == 1:
            return args[0]
        if e == 2:
            return mul(args[0], args[0])
        if e == -1:
            return div(R1, args[0])
        if e == Fraction(1, 2):
            return fn("sqrt", args[0])
    if name == "pow" and args[0].op == "num" and args[0].args[0] == 1:
        return R1
    if name in ("exp",) and args[0] is R0:
        return R1
    if name in ("log", "log10", "sin", "tan", "atan") and (args[0] is (R1 if name.startswith("log") else R0)):
        return R0
    if name == "cos" and args[0] is R0:
        return R1
    if any(a.op in ("inf", "ninf", "nan") for a in args):
        if name == "sqrt":
            return INF if args[0].op == "inf" else NAN
        return NAN
    for i, a in enumerate(args):
        if a.op == "ite" and has_ext(a):
            l = list(args)
            l[i] = a.args[1]
            r = list(args)
            r[i] = a.args[2]
            return ite(a.args[0], fn(name, *l), fn(name, *r))
    return mk("fn:" + name, tuple(args), "R")


_ext_memo = {}


def has_ext(t):
    """contains an infinite/NaN leaf reachable through ite arms"""
    if t.op in ("inf", "ninf", "nan"):
        return True
    if t.op == "min":
        return all(has_ext(x) for x in t.args)
    if t.op == "ite" and t.sort == "R":
        r = _ext_memo.get(t.id)
        if r is None:
            r = has_ext(t.args[1]) or has_ext(t.args[2])
            _ext_memo[t.id] = r
        return r
    return False


def fabs(a):
    if a.op == "num":
        return rc(abs(a.args[0]))
    if a.op in ("inf", "ninf"):
        return INF
    return ite(lt(a, R0), neg(a), a)


def rmin(a, b):
    return ite(lt(b, a), b, a)


def rmax(a, b):
    return ite(lt(a, b), b, a)


def lt(a, b):
    if a is b:
        return FALSE
    if a.op == "num" and b.op == "num":
        return boolc(a.args[0] < b.args[0])
    if "nan" in (a.op, b.op):
        return FALSE
    if a.op == "min":
        return bor(*[lt(x, b) for x in a.args])
    if b.op == "min":
        return band(*[lt(a, x) for x in b.args])
    if a.op == "ninf" or b.op == "inf":
        if a.op == "ite" and has_ext(a):
            return ite(a.args[0], lt(a.args[1], b), lt(a.args[2], b))
        if b.op == "ite" and has_ext(b):
            return ite(b.args[0], lt(a, b.args[1]), lt(a, b.args[2]))
        return TRUE
    if a.op == "inf" or b.op == "ninf":
        return FALSE
    if a.op == "ite" and has_ext(a):
        return ite(a.args[0], lt(a.args[1], b), lt(a.args[2], b))
    if b.op == "ite" and has_ext(b):
        return ite(b.args[0], lt(a, b.args[1]), lt(a, b.args[2]))
    # scale canonicalisation: c*x < 0
    if b.op == "num" and b.args[0] == 0 and a.op == "mul" and a.args[0].op == "num":
        return lt(a.args[1], R0) if a.args[0].args[0] > 0 else lt(R0, a.args[1])
    if a.op == "num" and a.args[0] == 0 and b.op == "mul" and b.args[0].op == "num":
        return lt(R0, b.args[1]) if b.args[0].args[0] > 0 else lt(b.args[1], R0)
    if a.op == "toreal" and b.op == "toreal":
        return ilt(a.args[0], b.args[0])
    if a.op == "toreal" and b.op == "num":
        # n < q  <=> n < ceil(q)
        q = b.args[0]
        return ilt(a.args[0], ic(-((-q.numerator) // q.denominator)))
    if b.op == "toreal" and a.op == "num":
        q = a.args[0]
        return ilt(ic(q.numerator // q.denominator), b.args[0])
    return mk("lt", (a, b), "B")


def le(a, b):
    """a <= b, NaN-free"""
    if a.op == "nan" or b.op == "nan":
        return FALSE
    if (a.op == "ite" and has_ext(a)):
        return ite(a.args[0], le(a.args[1], b), le(a.args[2], b))
    if (b.op == "ite" and has_ext(b)):
        return ite(b.args[0], le(a, b.args[1]), le(a, b.args[2]))
    return bnot(lt(b, a))


def req(a, b):
    if a is b:
        return boolc(a.op != "nan")
    if a.op == "min":
        a = expand_min(a)
    if b.op == "min":
        b = expand_min(b)
    if a.op == "num" and b.op == "num":
        return boolc(a.args[0] == b.args[0])
    for x, y in ((a, b), (b, a)):
        if x.op in ("inf", "ninf", "nan"):
            if y.op == "ite":
                return ite(y.args[0], req(x, y.args[1]), req(x, y.args[2]))
            return FALSE
        if x.op == "ite" and has_ext(x):
            return ite(x.args[0], req(x.args[1], y), req(x.args[2], y))
    if a.op == "toreal" and b.op == "toreal":
        return ieq(a.args[0], b.args[0])
    if a.op == "num":
        a, b = b, a
    if b.op == "num" and b.args[0] == 0 and a.op == "mul" and a.args[0].op == "num":
        return req(a.args[1], b)
    if a.op == "toreal" and b.op == "num":
        if b.args[0].denominator != 1:
            return FALSE
        return ieq(a.args[0], ic(b.args[0]))
    if b.op != "num" and a.id > b.id:
        a, b = b, a
    return mk("eq", (a, b), "B")


def toreal(i):
    if i.op == "num":
        return rc(i.args[0])
    if i.op == "ite":
        return ite(i.args[0], toreal(i.args[1]), toreal(i.args[2]))
    if i.op == "poly":
        r = R0
        for m, c in i.args:
            t = rc(c)
            for x in m:
                t = mul(t, toreal(x))
            r = add(r, t)
        return r
    if i.op == "toint" and i.args[0].op == "toreal":
        return i.args[0]
    return mk("toreal", (i,), "R")


def floor(a):
    """Int sort floor of a real"""
    if a.op == "num":
        return ic(a.args[0].numerator // a.args[0].denominator)
    if a.op == "toreal":
        return a.args[0]
    return mk("floor", (a,), "I")


# ----------------------------------------------------------------------------
# Booleans


def bnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "ige0":
        return ige0(isub(iscale(a.args[0], -1), I1))
    return mk("not", (a,), "B")


def band(*xs):
    s = {}
    for x in xs:
        for y in (x.args if x.op == "and" else (x,)):
            if y is TRUE:
                continue
            if y is FALSE:
                return FALSE
            s[y.id] = y
    for y in list(s.values()):
        n = bnot(y)
        if n.id in s:
            return FALSE
    l = [s[k] for k in sorted(s)]
    if not l:
        return TRUE
    if len(l) == 1:
        return l[0]
    return mk("and", tuple(l), "B")


def bor(*xs):
    s = {}
    for x in xs:
        for y in (x.args if x.op == "or" else (x,)):
            if y is FALSE:
                continue
            if y is TRUE:
                return TRUE
            s[y.id] = y
    for y in list(s.values()):
        n = bnot(y)
        if n.id in s:
            return TRUE
    l = [s[k] for k in sorted(s)]
    if not l:
        return FALSE
    if len(l) == 1:
        return l[0]
    return mk("or", tuple(l), "B")


def implies(a, b):
    return bor(bnot(a), b)


def iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return bnot(b)
    if b is FALSE:
        return bnot(a)
    return ite(a, b, bnot(b))


def bxor(a, b):
    return bnot(iff(a, b))


def ite(c, a, b, raw=False):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a.sort == "B":
        if a is TRUE:
            return bor(c, b)
        if a is FALSE:
            return band(bnot(c), b)
        if b is TRUE:
            return bor(bnot(c), a)
        if b is FALSE:
            return band(c, a)
        if c is a:
            return bor(c, b)
        if c is b:
            return band(c, a)
    if not raw and a.sort == "R" and (a.op == "min" or b.op == "min" or has_ext(a) or has_ext(b)) and not has_nan(a) and not has_nan(b):
        if lt(a, b) is c or bnot(lt(b, a)) is c:
            return emin(a, b)
        if lt(b, a) is bnot(c) or bnot(lt(a, b)) is bnot(c):
            return emin(b, a)
    # ite(c, v, ite(d, v, w)) -> ite(c or d, v, w)
    if b.op == "ite" and b.args[1] is a:
        return ite(bor(c, b.args[0]), a, b.args[2])
    return mk("ite", (c, a, b), a.sort)


# ----------------------------------------------------------------------------


def children(t):
    if t.op in ("num", "var"):
        return ()
    if t.op == "poly":
        r = []
        for m, c in t.args:
            r.extend(m)
        return r
    return [a for a in t.args if isinstance(a, T)]


def rebuild(t, f):
    """rebuild t with children mapped through f (smart constructors)"""
    op = t.op
    if op in ("num", "var", "true", "false", "inf", "ninf", "nan"):
        return t
    if op == "poly":
        r = I0
        for m, c in t.args:
            x = ic(c)
            for a in m:
                x = imul(x, f(a))
            r = iadd(r, x)
        return r
    if op == "idiv":
        return idivc(f(t.args[0]), t.args[1])
    if op == "imod":
        return imodc(f(t.args[0]), t.args[1])
    if op == "ige0":
        return ige0(f(t.args[0]))
    if op == "ieq0":
        return ieq(f(t.args[0]), I0)
    if op == "add":
        return add(f(t.args[0]), f(t.args[1]))
    if op == "mul":
        return mul(f(t.args[0]), f(t.args[1]))
    if op == "div":
        return div(f(t.args[0]), f(t.args[1]))
    if op == "lt":
        return lt(f(t.args[0]), f(t.args[1]))
    if op == "eq":
        return req(f(t.args[0]), f(t.args[1]))
    if op == "not":
        return bnot(f(t.args[0]))
    if op == "and":
        return band(*[f(a) for a in t.args])
    if op == "or":
        return bor(*[f(a) for a in t.args])
    if op == "ite":
        c = f(t.args[0])
        if c is TRUE:
            return f(t.args[1])
        if c is FALSE:
            return f(t.args[2])
        return ite(c, f(t.args[1]), f(t.args[2]))
    if op == "min":
        r = f(t.args[0])
        for a in t.args[1:]:
            r = emin(r, f(a))
        return r
    if op == "toreal":
        return toreal(f(t.args[0]))
    if op == "floor":
        return floor(f(t.args[0]))
    if op.startswith("fn:"):
        return fn(op[3:], *[f(a) for a in t.args])
    # generic (reads, uninterpreted ...)
    return mk(op, tuple(f(a) if isinstance(a, T) else a for a in t.args), t.sort)


def subst(t, env, memo=None):
    """env: dict term->term"""
    if memo is None:
        memo = {}

    def go(x):
        r = env.get(x)
        if r is not None:
            return r
        r = memo.get(x.id)
        if r is None:
            r = rebuild(x, go)
            memo[x.id] = r
        return r

    return go(t)


def varset(t):
    """frozenset of variables (terms)"""
    if t._vars is not None:
        return t._vars
    stack = [t]
    while stack:
        x = stack[-1]
        if x._vars is not None:
            stack.pop()
            continue
        if x.op == "var":
            x._vars = frozenset((x,))
            stack.pop()
            continue
        ch = children(x)
        todo = [c for c in ch if c._vars is None]
        if todo:
            stack.extend(todo)
            continue
        s = frozenset()
        for c in ch:
            if c._vars and not c._vars <= s:
                s = s | c._vars
        x._vars = s
        stack.pop()
    return t._vars


def show(t, depth=12):
    if depth == 0:
        return "..."
    s = lambda x: show(x, depth - 1)
    op = t.op
    if op == "num":
        return str(t.args[0])
    if op == "var":
        return str(t.args[0])
    if op == "poly":
        out = []
        for m, c in t.args:
            out.append("*".join(([str(c)] if c != 1 or not m else []) + [s(a) for a in m]))
        return "(" + " + ".join(out) + ")"
    if op == "add":
        return "(%s + %s)" % (s(t.args[0]), s(t.args[1]))
    if op == "mul":
        return "%s*%s" % (s(t.args[0]), s(t.args[1]))
    if op == "div":
        return "(%s / %s)" % (s(t.args[0]), s(t.args[1]))
    if op == "lt":
        return "%s < %s" % (s(t.args[0]), s(t.args[1]))
    if op == "eq":
        return "%s == %s" % (s(t.args[0]), s(t.args[1]))
    if op == "ige0":
        return "%s >= 0" % s(t.args[0])
    if op == "ieq0":
        return "%s == 0" % s(t.args[0])
    if op == "not":
        return "!(%s)" % s(t.args[0])
    if op in ("and", "or"):
        return "(" + (" && " if op == "and" else " || ").join(s(a) for a in t.args) + ")"
    if op == "ite":
        return "(%s ? %s : %s)" % tuple(s(a) for a in t.args)
    return "%s(%s)" % (op, ", ".join(s(a) if isinstance(a, T) else str(a) for a in t.args))


def flt(x):
    return struct.unpack("<d", struct.pack("<Q", x))[0]
