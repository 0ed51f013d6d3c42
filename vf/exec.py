"""Symbolic execution (strongest postconditions) of LLVM IR with loop summarisation.

Every path of the function under contract is executed symbolically; loops whose trip
count is not a constant are replaced by an automatically synthesised and checked
loop invariant (see loops.py).
"""
import itertools
from fractions import Fraction
from .terms import *
from . import ir
from .ir import layout, PTR, DOUBLE, ity
from . import solve


class Unsupported(Exception):
    pass


class Ptr(object):
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj, self.off = obj, off

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj == o.obj and self.off is o.off

    def __hash__(self):
        return hash((self.obj, self.off.id))

    def __repr__(self):
        return "&%s+%r" % (self.obj, self.off)


NULL = Ptr(0, I0)


class PIte(object):
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __eq__(self, o):
        return isinstance(o, PIte) and self.c is o.c and self.a == o.a and self.b == o.b

    def __hash__(self):
        return hash((self.c.id, self.a, self.b))


def pite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a == b:
        return a
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
        return Ptr(a.obj, ite(c, a.off, b.off))
    return PIte(c, a, b)


class Undef(object):
    def __repr__(self):
        return "undef"


UNDEF = Undef()


class Bits(object):
    """a double seen as an integer"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Bits) and self.v == o.v

    def __hash__(self):
        return hash(self.v)


class BVec(object):
    """an integer given by its bits (bitcast of a vector of i1)"""
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = tuple(b)

    def __eq__(self, o):
        return isinstance(o, BVec) and o.b == self.b

    def __hash__(self):
        return hash(self.b)

    @staticmethod
    def of(v, n):
        if isinstance(v, BVec):
            return v.b + (FALSE,) * (n - len(v.b))
        if isinstance(v, T) and v.op == "num":
            k = ival(v)
            return tuple(boolc(bool((k >> i) & 1)) for i in range(n))
        raise Unsupported("bits of %r" % (v,))


class Recast(object):
    """vector of doubles or wide integers viewed as bytes"""
    __slots__ = ("v", "ty")

    def __init__(self, v, ty):
        self.v, self.ty = v, ty


class Obj(object):
    __slots__ = ("id", "kind", "size", "cells", "fills", "name", "arr", "const", "gens")

    def __init__(self, id, kind, size, name):
        self.id, self.kind, self.size, self.name = id, kind, size, name
        self.cells = {}
        self.fills = ()
        self.arr = None
        self.const = False

    def copy(self):
        o = Obj(self.id, self.kind, self.size, self.name)
        o.cells = dict(self.cells)
        o.fills = self.fills
        o.arr = self.arr
        o.const = self.const
        return o


class Arr(object):
    """symbolic (grid) array: elements addressed by index vectors"""
    __slots__ = ("name", "esize", "sort", "strides", "ext", "lower", "log", "frozen", "fn")

    def __init__(self, name, esize, sort, strides, ext, log=(), fn=None):
        self.name, self.esize, self.sort = name, esize, sort
        self.strides, self.ext, self.log = strides, ext, log
        self.fn = fn

    def with_log(self, log):
        return Arr(self.name, self.esize, self.sort, self.strides, self.ext, log, self.fn)


class W(object):
    """one array write: for all params with cond: arr[idx] = val"""
    __slots__ = ("params", "cond", "idx", "val")

    def __init__(self, params, cond, idx, val):
        self.params, self.cond, self.idx, self.val = params, cond, idx, val

    def key(self):
        return (self.params, self.cond, self.idx, self.val)


class Frame(object):
    __slots__ = ("fn", "loc", "block", "ip", "prev", "call", "loopdepth")

    def __init__(self, fn, loc, block, call):
        self.fn, self.loc, self.block, self.ip, self.prev, self.call = fn, loc, block, 0, None, call

    def copy(self):
        f = Frame(self.fn, dict(self.loc), self.block, self.call)
        f.ip, f.prev = self.ip, self.prev
        return f


class Quant(object):
    """for all n with guard(n) there are values of `ex` with body(n) true"""
    __slots__ = ("n", "guard", "ex", "body", "quants")

    def __init__(self, n, guard, ex, body, quants):
        self.n, self.guard, self.ex, self.body, self.quants = n, guard, ex, body, quants


class State(object):
    __slots__ = ("frames", "mem", "pc", "quants", "active", "dry", "events", "ghost", "unroll")

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.pc = ()
        self.quants = ()
        self.active = ()  # stack of loops currently being executed iteration-wise: (depth, header)
        self.dry = False
        self.events = ()
        self.ghost = {}
        self.unroll = {}

    def clone(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = self.pc
        s.quants = self.quants
        s.active = self.active
        s.dry = self.dry
        s.events = self.events
        s.ghost = dict(self.ghost)
        s.unroll = dict(self.unroll)
        return s

    def assume(self, c):
        if c is TRUE:
            return
        if c.op == "and":
            for a in c.args:
                self.assume(a)
            return
        if c not in self.pc:
            self.pc = self.pc + (c,)


class Obligation(object):
    __slots__ = ("name", "kind", "pc", "goal", "quants", "where")

    def __init__(self, name, kind, pc, goal, quants, where):
        self.name, self.kind, self.pc, self.goal, self.quants, self.where = name, kind, pc, goal, quants, where


FRESH = itertools.count()


def fresh(sort, base):
    return mk("var", ("%s!%d" % (base, next(FRESH)),), sort)


def is_unsigned_neg(c, n):
    return c


class Exec(object):
    def __init__(self, module, opts=None):
        self.m = module
        self.opts = opts or {}
        self.obls = []
        self.gobj = {}
        self.fnobj = {}
        self.objfn = {}
        self.base = {}
        self.nobj = itertools.count(1)
        self.steps = 0
        self.maxsteps = self.opts.get("maxsteps", 3000000)
        self.paths = 0
        self.warnings = set()
        self.trusted = set()
        self.inputs = {}
        self.covers = {}
        self.arrays = {}
        self.loops_summarised = []
        self.loops_unrolled = 0
        self.allow_throw = False
        self.executed = set()
        self.bounded = None

    # ------------------------------------------------------------------ memory

    def newobj(self, st, kind, size, name):
        o = Obj(next(self.nobj), kind, size, name)
        st.mem[o.id] = o
        return o

    def getobj(self, st, oid):
        o = st.mem.get(oid)
        if o is None:
            o = self.base.get(oid)
        if o is None:
            raise Unsupported("access to unknown object %r" % oid)
        return o

    def wobj(self, st, oid):
        o = self.getobj(st, oid)
        o = o.copy()
        st.mem[oid] = o
        return o

    def global_ptr(self, name):
        if name in self.gobj:
            return Ptr(self.gobj[name], I0)
        if name in self.fnobj:
            return Ptr(self.fnobj[name], I0)
        if name in self.m.fns or name in self.m.decls:
            oid = next(self.nobj)
            self.fnobj[name] = oid
            self.objfn[oid] = name
            self.base[oid] = Obj(oid, "fn", 1, name)
            return Ptr(oid, I0)
        g = self.m.glob(name)
        if g is None:
            raise Unsupported("unknown global " + name)
        if g[0] == "alias":
            return self.const(g[1], PTR)
        ty, init, const = g
        layout(ty)
        o = Obj(next(self.nobj), "global", ty.size, name)
        o.const = const
        self.base[o.id] = o
        self.gobj[name] = o.id
        if init is not None:
            self.init_cells(o, 0, ty, init)
        elif name in self.m._raw:
            o.kind = "extern"
        return Ptr(o.id, I0)

    def init_cells(self, o, off, ty, v):
        k = v[0]
        layout(ty)
        if k == "zero":
            o.fills = o.fills + ((off, ty.size, 0),)
            return
        if k == "undef":
            return
        if k == "str":
            for i, b in enumerate(v[1]):
                o.cells[off + i] = (1, ic(b if b < 128 else b - 256))
            return
        if k == "agg":
            if ty.k in ("arr", "vec"):
                e = ty.elts[0]
                layout(e)
                for i, (t, x) in enumerate(v[1]):
                    self.init_cells(o, off + i * e.size, t, x)
            else:
                for i, (t, x) in enumerate(v[1]):
                    self.init_cells(o, off + ty.offs[i], t, x)
            return
        o.cells[off] = (ty.size, self.const(v, ty))

    def const(self, v, ty):
        k = v[0]
        if k == "f":
            return rc(v[1])
        if k == "f80":
            return self.f80(v[1])
        if k == "i":
            if ty.k == "i" and ty.n == 1:
                return boolc(v[1] != 0)
            return ic(v[1])
        if k == "null":
            return NULL
        if k == "g":
            return self.global_ptr(v[1])
        if k == "undef":
            return self.undef(ty)
        if k == "zero":
            return self.zero(ty)
        if k == "agg":
            return tuple(self.const(x, t) for t, x in v[1])
        if k == "gep":
            base = self.const(v[2][0][1], PTR)
            return self.gep(base, v[1], [(t, self.const(x, t)) for t, x in v[2][1:]])
        if k == "cast":
            x = self.const(v[3], v[2])
            return self.cast(v[1], v[2], x, v[4])
        if k == "cbin":
            return self.binop(None, v[1], v[2], self.const(v[3], v[2]), self.const(v[4], v[2]))
        if k == "str":
            return tuple(ic(b) for b in v[1])
        raise Unsupported("constant " + str(v))

    def f80(self, s):
        if not s.startswith("0xK"):
            raise Unsupported("fp constant")
        h = int(s[3:], 16)
        sign = h >> 79
        e = (h >> 64) & 0x7FFF
        man = h & ((1 << 64) - 1)
        if e == 0x7FFF:
            return NAN if man << 1 & ((1 << 64) - 1) else (NINF if sign else INF)
        v = Fraction(man) * (Fraction(2) ** (e - 16383 - 63))
        return rc(-v if sign else v)

    def undef(self, ty):
        if ty.k in ("arr", "vec"):
            return tuple(self.undef(ty.elts[0]) for _ in range(ty.n))
        if ty.k in ("struct", "packed"):
            return tuple(self.undef(e) for e in ty.elts)
        return UNDEF

    def zero(self, ty):
        if ty.k in ("arr", "vec"):
            return tuple(self.zero(ty.elts[0]) for _ in range(ty.n))
        if ty.k in ("struct", "packed"):
            return tuple(self.zero(e) for e in ty.elts)
        if ty.k == "ptr":
            return NULL
        if ty.k == "i":
            return FALSE if ty.n == 1 else I0
        return R0

    def real(self, ty, v, what="undef"):
        if v is UNDEF:
            if ty.k == "ptr":
                return NULL
            s = "R" if ty.k in ("double", "float", "x86_fp80") else ("B" if ty.k == "i" and ty.n == 1 else "I")
            return fresh(s, what)
        return v

    # conversion of a stored value to the type of the access
    def convert(self, v, ty):
        if v is UNDEF:
            return self.real(ty, v)
        if isinstance(v, Bits):
            if ty.k in ("double", "float"):
                return v.v
            if ty.k == "ptr":
                raise Unsupported("bits as pointer")
            if isinstance(v.v, T) and v.v.op == "num" and v.v.args[0] == 0:
                return I0
            return v
        if isinstance(v, T):
            if ty.k in ("double", "float", "x86_fp80"):
                if v.sort == "R":
                    return v
                if v is I0:
                    return R0
                if v.op == "num":
                    if ty.k == "double":
                        n = ival(v) & ((1 << 64) - 1)
                        return rc(flt(n))
                raise Unsupported("int bits as double: %r" % v)
            if ty.k == "i":
                if v.sort == "R":
                    if v is R0:
                        return I0
                    return Bits(v)
                if v.sort == "B":
                    return v if ty.n == 1 else ite(v, I1, I0)
                if ty.n == 1:
                    return self.i2b(v)
                return v
            if ty.k == "ptr":
                if v.sort == "I":
                    return self.int2ptr(v)
                raise Unsupported("value as pointer")
        if isinstance(v, (Ptr, PIte)):
            if ty.k == "ptr":
                return v
            if ty.k == "i":
                return self.ptr2int(v)
        if isinstance(v, Packed) and ty.k == "i":
            return v
        raise Unsupported("convert %r to %r" % (v, ty))

    def i2b(self, v):
        if v.op == "ite" and v.args[1] is I1 and v.args[2] is I0:
            return v.args[0]
        return bnot(ieq(imodc(v, 2), I0))

    def ptr2int(self, p):
        if isinstance(p, PIte):
            return ite(p.c, self.ptr2int(p.a), self.ptr2int(p.b))
        if p.obj == 0:
            return p.off
        return iadd(mk("addr", (p.obj,), "I"), p.off)

    def int2ptr(self, v):
        if v.op == "num":
            return Ptr(0, v)
        if v.op == "ite":
            return pite(v.args[0], self.int2ptr(v.args[1]), self.int2ptr(v.args[2]))
        p = ipoly(v)
        a = [m for m in p if len(m) == 1 and m[0].op == "addr"]
        if len(a) == 1 and p[a[0]] == 1:
            rest = dict(p)
            del rest[a[0]]
            return Ptr(a[0][0].args[0], ifrom(rest))
        raise Unsupported("inttoptr %r" % v)

    def bounds(self, st, o, off, size, what):
        """memory safety obligation"""
        if o.kind == "freed":
            self.oblige(st, "use after free", "memory", FALSE)
            return
        if o.size is None:
            return
        sz = o.size if isinstance(o.size, T) else ic(o.size)
        g = band(ile(I0, off), ile(iadd(off, ic(size)), sz))
        if g is not TRUE:
            self.oblige(st, "%s of %s within bounds" % (what, o.name), "memory", g)

    def load(self, st, p, ty):
        if isinstance(p, PIte):
            a = self.load(self.under(st, p.c), p.a, ty)
            b = self.load(self.under(st, bnot(p.c)), p.b, ty)
            return self.merge(p.c, a, b)
        if p is UNDEF or not isinstance(p, Ptr):
            raise Unsupported("load through %r" % (p,))
        if ty.k in ("arr", "vec"):
            e = ty.elts[0]
            layout(e)
            return tuple(self.load(st, Ptr(p.obj, iadd(p.off, ic(i * e.size))), e) for i in range(ty.n))
        if ty.k in ("struct", "packed"):
            layout(ty)
            return tuple(self.load(st, Ptr(p.obj, iadd(p.off, ic(o))), e) for e, o in zip(ty.elts, ty.offs))
        layout(ty)
        if p.obj == 0:
            self.oblige(st, "null pointer dereference", "memory", FALSE)
            raise Infeasible()
        o = self.getobj(st, p.obj)
        if o.arr is not None:
            return self.convert(self.arr_load(st, o, p.off, ty.size), ty)
        if p.off.op != "num":
            return self.load_sym(st, o, p, ty)
        off = ival(p.off)
        self.bounds(st, o, p.off, ty.size, "read")
        c = o.cells.get(off)
        if c is not None and c[0] == ty.size:
            return self.convert(c[1], ty)
        return self.convert(self.load_bytes(o, off, ty.size), ty)

    def load_bytes(self, o, off, size):
        # covered by a wider constant/zero cell?
        if o.kind == "extern":
            raise Unsupported("read of external global " + o.name)
        parts = []
        for k, (s, v) in o.cells.items():
            if k < off + size and off < k + s:
                parts.append((k, s, v))
        if not parts:
            for fo, fs, b in reversed(o.fills):
                if fo <= off and off + size <= fo + fs:
                    if b == 0:
                        return I0
                    raise Unsupported("non-zero memset")
            return UNDEF
        if len(parts) == 1:
            k, s, v = parts[0]
            if k <= off and off + size <= k + s:
                if isinstance(v, T) and v.sort == "I" and v.op == "num":
                    n = ival(v) & ((1 << (8 * s)) - 1)
                    n = (n >> (8 * (off - k))) & ((1 << (8 * size)) - 1)
                    if n >> (8 * size - 1):
                        n -= 1 << (8 * size)
                    return ic(n)
                if isinstance(v, T) and v is R0:
                    return I0
                if isinstance(v, T) and v.sort == "I" and v.op in ("poly", "ite"):
                    r = subbytes(v, off - k, size)
                    if r is not None:
                        return r
                if isinstance(v, Packed):
                    for (o2, s2, v2) in v.parts:
                        if o2 == off - k and s2 == size:
                            return v2
        # assemble from several cells
        parts.sort(key=lambda x: x[0])
        if all(isinstance(v, T) and v.op == "num" and (v.sort == "I" or v is R0) for _, _, v in parts):
            n = 0
            ok = True
            cov = set()
            for k, s, v in parts:
                w = ival(v) & ((1 << (8 * s)) - 1) if v.sort == "I" else 0
                for j in range(s):
                    if off <= k + j < off + size:
                        n |= ((w >> (8 * j)) & 255) << (8 * (k + j - off))
                        cov.add(k + j)
            if len(cov) == size or all(any(fo <= b < fo + fs for fo, fs, _ in o.fills) for b in range(off, off + size) if b not in cov):
                if n >> (8 * size - 1):
                    n -= 1 << (8 * size)
                return ic(n)
        if all(off <= k and k + s <= off + size for k, s, v in parts):
            return Packed(tuple((k - off, s, v) for k, s, v in parts), size)
        raise Unsupported("partial read of %s at %d size %d: %r" % (o.name, off, size, parts))

    def under(self, st, c):
        if st.dry or c is TRUE:
            return st
        s = State()
        s.frames, s.mem, s.quants, s.active, s.dry = st.frames, st.mem, st.quants, st.active, st.dry
        s.pc = st.pc
        s.events = st.events
        s.assume(c)
        return s

    def merge(self, c, a, b):
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if a is b:
            return a
        if isinstance(a, tuple):
            return tuple(self.merge(c, x, y) for x, y in zip(a, b))
        if isinstance(a, (Ptr, PIte)) or isinstance(b, (Ptr, PIte)):
            if a is UNDEF:
                return b
            if b is UNDEF:
                return a
            if isinstance(a, T):
                a = self.int2ptr(a)
            if isinstance(b, T):
                b = self.int2ptr(b)
            return pite(c, a, b)
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if isinstance(a, Bits) or isinstance(b, Bits):
            f = lambda x: x.v if isinstance(x, Bits) else self.convert(x, DOUBLE)
            return Bits(self.merge(c, f(a), f(b)))
        if isinstance(a, Packed) or isinstance(b, Packed):
            if isinstance(a, Packed) and isinstance(b, Packed) and [p[:2] for p in a.parts] == [p[:2] for p in b.parts]:
                return Packed(tuple((o, s, self.merge(c, x, y)) for (o, s, x), (_, _, y) in zip(a.parts, b.parts)), a.size)
            raise Unsupported("merge packed")
        if a.sort != b.sort:
            if a.sort == "B":
                a = ite(a, I1, I0)
            if b.sort == "B":
                b = ite(b, I1, I0)
            if a.sort != b.sort:
                raise Unsupported("merge sorts")
        return ite(c, a, b)

    def load_sym(self, st, o, p, ty):
        """symbolic offset into an object with concrete cells: case split over the offsets"""
        cands = self.offsets(st, o, p.off, ty.size)
        self.bounds(st, o, p.off, ty.size, "read")
        res = None
        for off in reversed(cands):
            v = self.load(st, Ptr(p.obj, ic(off)), ty)
            res = v if res is None else self.merge(ieq(p.off, ic(off)), v, res)
        if res is None:
            raise Unsupported("symbolic offset %r into %s" % (p.off, o.name))
        return res

    def offsets(self, st, o, off, size):
        if not isinstance(o.size, int):
            raise Unsupported("symbolic offset into object of symbolic size")
        poly = ipoly(off)
        step = 0
        import math
        base = poly.get((), Fraction(0)).numerator
        for m, c in poly.items():
            if m != ():
                if len(m) == 1 and m[0].op == "ite":
                    # enumerate the values of small conditionals
                    step = math.gcd(step, 1)
                step = math.gcd(step, c.numerator)
        vals = self.enum_values(off)
        if vals is not None:
            return sorted(v for v in vals if 0 <= v and v + size <= o.size)
        step = step or size
        r = [k for k in range(base % step, o.size - size + 1, step)]
        if len(r) > 4096:
            raise Unsupported("too many candidate offsets")
        out = []
        for k in r:
            if len(r) <= 2 or solve.feasible(st.pc, (ieq(off, ic(k)),), 100):
                out.append(k)
        return out

    def enum_values(self, t, depth=0):
        """finite set of possible integer values of a conditional expression"""
        if depth > 12:
            return None
        if t.op == "num":
            return {ival(t)} if t.args[0].denominator == 1 else None
        if t.op == "ite":
            a = self.enum_values(t.args[1], depth + 1)
            b = self.enum_values(t.args[2], depth + 1)
            return None if a is None or b is None else a | b
        if t.op == "poly":
            vals = {Fraction(0)}
            for m, c in t.args:
                if m == ():
                    vals = {v + c for v in vals}
                    continue
                if len(m) != 1:
                    return None
                w = self.enum_values(m[0], depth + 1)
                if w is None or len(w) * len(vals) > 4096:
                    return None
                vals = {v + c * x for v in vals for x in w}
            if any(v.denominator != 1 for v in vals):
                return None
            return {v.numerator for v in vals}
        return None

    def store(self, st, p, ty, v):
        if isinstance(p, PIte):
            self.store_cond(st, p.c, p.a, ty, v)
            self.store_cond(st, bnot(p.c), p.b, ty, v)
            return
        if ty.k in ("arr", "vec"):
            e = ty.elts[0]
            layout(e)
            for i in range(ty.n):
                self.store(st, Ptr(p.obj, iadd(p.off, ic(i * e.size))), e, v[i])
            return
        if ty.k in ("struct", "packed"):
            layout(ty)
            for i, (e, o) in enumerate(zip(ty.elts, ty.offs)):
                self.store(st, Ptr(p.obj, iadd(p.off, ic(o))), e, v[i])
            return
        layout(ty)
        if not isinstance(p, Ptr):
            raise Unsupported("store through %r" % (p,))
        if p.obj == 0:
            self.oblige(st, "null pointer dereference", "memory", FALSE)
            raise Infeasible()
        o = self.getobj(st, p.obj)
        if o.arr is not None:
            self.arr_store(st, o, p.off, ty.size, self.arr_val(o, v), TRUE)
            return
        if p.off.op != "num":
            cands = self.offsets(st, o, p.off, ty.size)
            self.bounds(st, o, p.off, ty.size, "write")
            for off in cands:
                q = Ptr(p.obj, ic(off))
                old = self.load(st, q, ty)
                self.store(st, q, ty, self.merge(ieq(p.off, ic(off)), v, old))
            return
        off = ival(p.off)
        self.bounds(st, o, p.off, ty.size, "write")
        o = self.wobj(st, p.obj)
        self.put(o, off, ty.size, v)

    def store_cond(self, st, c, p, ty, v):
        if isinstance(p, PIte):
            self.store_cond(st, band(c, p.c), p.a, ty, v)
            self.store_cond(st, band(c, bnot(p.c)), p.b, ty, v)
            return
        o = self.getobj(st, p.obj)
        if o.arr is not None:
            layout(ty)
            self.arr_store(self.under(st, c), o, p.off, ty.size, self.arr_val(o, v), c, st)
            return
        old = self.load(self.under(st, c), p, ty)
        self.store(st, p, ty, self.merge(c, v, old))

    def put(self, o, off, size, v):
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            o.cells[off] = (size, v)
            return
        # remove / split overlapping cells
        for k in [k for k, (s, _) in o.cells.items() if k < off + size and off < k + s]:
            s, w = o.cells.pop(k)
            if k < off or k + s > off + size:
                # keep the uncovered parts of integer constants, else poison
                for b in range(k, k + s):
                    if b < off or b >= off + size:
                        if isinstance(w, T) and w.op == "num" and (w.sort == "I" or w is R0):
                            n = 0 if w is R0 else ival(w) & ((1 << (8 * s)) - 1)
                            bb = (n >> (8 * (b - k))) & 255
                            o.cells[b] = (1, ic(bb if bb < 128 else bb - 256))
                        else:
                            o.cells[b] = (1, UNDEF)
        o.cells[off] = (size, v)

    # ------------------------------------------------------------ grid arrays

    def arr_val(self, o, v):
        if v is UNDEF:
            return fresh(o.arr.sort, "undef")
        if isinstance(v, Bits):
            v = v.v
        if isinstance(v, T):
            if o.arr.sort == "R" and v.sort == "I":
                return self.convert(v, DOUBLE)
            if o.arr.sort == "I" and v.sort == "B":
                return ite(v, I1, I0)
            return v
        raise Unsupported("array store of %r" % (v,))

    def decompose(self, arr, off, size):
        """byte offset -> index vector"""
        p = ipoly(off)
        comps = [dict() for _ in range(len(arr.strides) + 1)]
        for m, c in p.items():
            c = qd(c, arr.esize)
            k = 0
            mm = m
            for i, s in enumerate(arr.strides):
                if s in m:
                    l = list(m)
                    l.remove(s)
                    mm = tuple(l)
                    k = i + 1
            if any(s in mm for s in arr.strides):
                raise Unsupported("nonlinear address in %s: %r" % (arr.name, off))
            comps[k][mm] = comps[k].get(mm, 0) + c
        return tuple(ifrom(c) for c in comps)

    def arr_bounds(self, st, o, idx, size, what):
        arr = o.arr
        if size != arr.esize:
            raise Unsupported("access of %d bytes to array %s" % (size, arr.name))
        gs = []
        for i, n in zip(idx, arr.ext):
            gs.append(ile(I0, i))
            if n is not None:
                gs.append(ilt(i, n))
        g = band(*gs)
        if g is not TRUE:
            self.oblige(st, "%s of %s within bounds" % (what, arr.name), "memory", g)

    def arr_load(self, st, o, off, size):
        idx = self.decompose(o.arr, off, size)
        self.arr_bounds(st, o, idx, size, "read")
        return self.arr_read(st, o.arr, idx)

    def known(self, st, c):
        """simplify a condition with the facts of the path"""
        if c is TRUE or c is FALSE:
            return c
        ids = set(x.id for x in st.pc)
        if c.id in ids:
            return TRUE
        if bnot(c).id in ids:
            return FALSE
        if not solve.feasible(st.pc, (c,), 200):
            return FALSE
        if not solve.feasible(st.pc, (bnot(c),), 200):
            return TRUE
        return c

    def arr_read(self, st, arr, idx):
        conds = []
        for w in reversed(arr.log):
            r = self.match(w, idx)
            if r is None:
                continue
            cond, val = r
            cond = self.known(st, cond)
            if cond is FALSE:
                continue
            conds.append((cond, val))
            if cond is TRUE:
                break
        if conds and conds[-1][0] is TRUE:
            res = conds.pop()[1]
        elif arr.fn is not None:
            res = arr.fn(idx)
        else:
            res = mk("rd", (arr.name,) + idx, arr.sort)
        for cond, val in reversed(conds):
            res = ite(cond, val, res)
        return res

    def match(self, w, idx):
        """solve w.idx(params) == idx; returns (condition, value) or None if impossible"""
        env = {}
        conds = []
        todo = list(range(len(idx)))
        params = set(w.params)
        progress = True
        while todo and progress:
            progress = False
            for k in list(todo):
                e = subst(w.idx[k], env) if env else w.idx[k]
                vs = [p for p in params if p in varset(e) and p not in env]
                if not vs:
                    c = ieq(e, idx[k])
                    if c is FALSE:
                        return None
                    conds.append(c)
                    todo.remove(k)
                    progress = True
                elif len(vs) == 1:
                    p = vs[0]
                    poly = ipoly(e)
                    a = poly.get((p,), Fraction(0))
                    rest = {m: c for m, c in poly.items() if m != (p,)}
                    if a and not any(p in varset(x) for m in rest for x in m):
                        num = isub(idx[k], ifrom(rest))
                        sol = iscale(num, Fraction(1) / a)
                        if abs(a) != 1:
                            n2 = iscale(num, 1 if a > 0 else -1)
                            q = abs(a)
                            if q.denominator != 1:
                                raise Unsupported("rational stride")
                            conds.append(ieq(imodc(n2, q.numerator), I0))
                            if conds[-1] is FALSE:
                                return None
                        env[p] = sol
                        todo.remove(k)
                        progress = True
        if todo or any(p not in env for p in w.params):
            raise Unsupported("cannot solve array index %r = %r" % (w.idx, idx))
        if env:
            memo = {}
            # parameters may have been solved in terms of other parameters
            for _ in range(len(env)):
                env = {p: subst(e, {q: x for q, x in env.items() if q is not p}) for p, e in env.items()}
            c = subst(w.cond, env, memo)
            v = subst(w.val, env, memo)
            conds = [subst(x, env, memo) for x in conds]
        else:
            c, v = w.cond, w.val
        cond = band(c, *conds)
        if cond is FALSE:
            return None
        return cond, v

    def arr_store(self, st, o, off, size, v, cond, target=None):
        idx = self.decompose(o.arr, off, size)
        self.arr_bounds(st, o, idx, size, "write")
        st = target or st
        n = self.wobj(st, o.id)
        n.arr = o.arr.with_log(o.arr.log + (W((), cond, idx, v),))

    # ------------------------------------------------------------ obligations

    def oblige(self, st, name, kind, goal):
        if goal is TRUE:
            # counted: discharged by normalisation
            if not st.dry:
                self.obls.append(Obligation(name, kind, st.pc, goal, st.quants, self.where(st)))
            return
        if st.dry:
            return
        self.obls.append(Obligation(name, kind, st.pc, goal, st.quants, self.where(st)))

    def where(self, st):
        return st.frames[-1].fn.name if st.frames else ""

    # -------------------------------------------------------------- operators

    def binop(self, st, op, ty, a, b):
        if ty.k == "vec":
            return tuple(self.binop(st, op, ty.elts[0], x, y) for x, y in zip(a, b))
        a = self.real(ty, a)
        b = self.real(ty, b)
        if op == "fadd":
            return add(a, b)
        if op == "fsub":
            return sub(a, b)
        if op == "fmul":
            return mul(a, b)
        if op == "fdiv":
            return div(a, b)
        if op == "frem":
            q = div(a, b)
            tr = toreal(ite(lt(q, R0), iscale(floor(neg(q)), -1), floor(q)))
            return sub(a, mul(b, tr))
        if ty.n == 1:
            if op == "and":
                return band(a, b)
            if op == "or":
                return bor(a, b)
            if op in ("xor", "add", "sub"):
                return bxor(a, b)
            if op == "mul":
                return band(a, b)
        if isinstance(a, (Ptr, PIte)):
            a = self.ptr2int(a)
        if isinstance(b, (Ptr, PIte)):
            b = self.ptr2int(b)
        if isinstance(a, BVec) or isinstance(b, BVec):
            if op == "lshr" and isinstance(a, BVec) and b.op == "num":
                k = ival(b)
                return BVec((a.b + (FALSE,) * ty.n)[k:k + ty.n])
            f = {"and": band, "or": bor, "xor": bxor}.get(op)
            if f is None:
                raise Unsupported("operation %s on a bit vector" % op)
            return BVec(f(x, y) for x, y in zip(BVec.of(a, ty.n), BVec.of(b, ty.n)))
        if isinstance(a, Packed) or isinstance(b, Packed):
            return self.packed_op(op, ty, a, b)
        if isinstance(a, Bits) or isinstance(b, Bits):
            # sign manipulation of doubles
            x, y = (a, b) if isinstance(a, Bits) else (b, a)
            if isinstance(y, T) and y.op == "num":
                n = ival(y) & ((1 << 64) - 1)
                if op == "and" and n == (1 << 63) - 1:
                    return Bits(fabs(x.v))
                if op == "xor" and n == 1 << 63:
                    return Bits(neg(x.v))
            raise Unsupported("integer arithmetic on double bits: %s" % op)
        if op == "add":
            return iadd(a, b)
        if op == "sub":
            return isub(a, b)
        if op == "mul":
            return imul(a, b)
        if op == "shl" and b.op == "num":
            # a single-bit shift into the high half builds a packed pair
            r = iscale(a, 2 ** ival(b))
            if a.op == "num":
                n = ival(r) & ((1 << ty.n) - 1)
                return ic(n - (1 << ty.n) if n >> (ty.n - 1) else n)
            if ty.n == 64 and ival(b) == 32 and a.op != "num":
                return Packed(((0, 4, I0), (4, 4, a)), 8)
            return r
        if op in ("lshr", "ashr") and b.op == "num":
            if a.op == "num" and op == "lshr" and ival(a) < 0:
                return ic((ival(a) & ((1 << ty.n) - 1)) >> ival(b))
            if op == "lshr":
                self.nonneg(st, a)
            return idivc(a, 2 ** ival(b))
        if op == "and":
            if a.op == "num":
                a, b = b, a
            if a.op == "num" and b.op == "num":
                return ic(ival(a) & ival(b))
            if b.op == "num":
                n = ival(b)
                if n >= 0 and (n & (n + 1)) == 0:
                    if n + 1 == 2 ** 32 and ty.n == 64:
                        return a  # low half of a value that fits
                    return imodc(a, n + 1)
                if n < 0 and ((-n) & (-n - 1)) == 0:
                    return isub(a, imodc(a, -n))
                if n < 0 and ty.n in (32, 64):
                    pass
                un = n & ((1 << ty.n) - 1)
                k = (1 << ty.n) - un
                if k and (k & (k - 1)) == 0:
                    return isub(a, imodc(a, k))
                # power of two masks
                if n > 0 and n & (n - 1) == 0:
                    return iscale(imodc(idivc(a, n), 2), n)
                # contiguous mask starting above bit 0
                low = n & -n
                m = n // low
                if n > 0 and (m & (m + 1)) == 0:
                    return iscale(imodc(idivc(a, low), m + 1), low)
            if self.is01(a) and self.is01(b):
                return ite(band(self.i2b(a), self.i2b(b)), I1, I0)
        if op == "or":
            if a is I0:
                return b
            if b is I0:
                return a
            if a.op == "num" and b.op == "num":
                return ic(ival(a) | ival(b))
            if self.is01(a) and self.is01(b):
                return ite(bor(self.i2b(a), self.i2b(b)), I1, I0)
            # disjoint or
            return self.disjoint_or(st, a, b)
        if op == "xor":
            if b.op == "num" and ival(b) == -1:
                return isub(ic(-1), a)
            if a.op == "num" and b.op == "num":
                return ic(ival(a) ^ ival(b))
            if self.is01(a) and self.is01(b):
                return ite(bxor(self.i2b(a), self.i2b(b)), I1, I0)
            if b is I1 and a.op != "num":
                # x ^ 1 : flip lowest bit
                return ite(ieq(imodc(a, 2), I0), iadd(a, I1), isub(a, I1))
        if op in ("sdiv", "udiv") and b.op == "num" and ival(b) > 0:
            k = ival(b)
            if op == "udiv" or a.op != "num":
                if op == "udiv":
                    self.nonneg(st, a)
                    return idivc(a, k)
                p = ipoly(a)
                if all(qd(c, k).denominator == 1 for c in p.values()):
                    return iscale(a, Fraction(1, k))
                return ite(ile(I0, a), idivc(a, k), iscale(idivc(iscale(a, -1), k), -1))
            n = ival(a)
            q = abs(n) // k
            return ic(q if n >= 0 else -q)
        if op in ("srem", "urem") and b.op == "num" and ival(b) > 0:
            k = ival(b)
            if op == "urem":
                self.nonneg(st, a)
                return imodc(a, k)
            return ite(ile(I0, a), imodc(a, k), iscale(imodc(iscale(a, -1), k), -1))
        if op in ("sdiv", "udiv", "srem", "urem"):
            q = QUOT.get((a, b))
            if q is None:
                q = QUOT[(a, b)] = fresh("I", "quot")
            r = isub(a, imul(q, b))
            st.assume(implies(band(ile(I0, a), ilt(I0, b)), band(ile(I0, r), ilt(r, b))))
            return q if op.endswith("div") else r
        if op in ("shl", "ashr", "lshr") and a.op == "num":
            vals = self.enum_values(b)
            if vals:
                r = None
                for v in sorted(vals):
                    x = ic(ival(a) << v) if op == "shl" else ic(ival(a) >> v)
                    r = x if r is None else ite(ieq(b, ic(v)), x, r)
                return r
        raise Unsupported("binop %s %r %r" % (op, a, b))

    def packed_op(self, op, ty, a, b):
        if isinstance(b, Packed) and not isinstance(a, Packed):
            a, b = b, a
        if op in ("lshr", "ashr") and isinstance(b, T) and b.op == "num" and ival(b) % 8 == 0:
            k = ival(b) // 8
            parts = tuple((o - k, s, v) for o, s, v in a.parts if o >= k)
            if len(parts) == 1 and parts[0][0] == 0:
                return self.convert(parts[0][2], ity(parts[0][1] * 8))
            return Packed(parts, a.size)
        if op == "and" and isinstance(b, T) and b.op == "num":
            n = ival(b) & ((1 << (8 * a.size)) - 1)
            keep = []
            for o, s, v in a.parts:
                m = (n >> (8 * o)) & ((1 << (8 * s)) - 1)
                if m == (1 << (8 * s)) - 1:
                    keep.append((o, s, v))
                elif m != 0:
                    if m & 1 and isinstance(v, T) and (v.sort == "B" or (v.op == "ite" and {v.args[1], v.args[2]} <= {I0, I1})):
                        keep.append((o, s, v))
                    else:
                        raise Unsupported("packed and")
            if len(keep) == 1 and keep[0][0] == 0:
                return keep[0][2]
            return Packed(tuple(keep), a.size)
        if op in ("or", "add"):
            if isinstance(b, T) and b is I0:
                return a
            if isinstance(b, T) and b.op == "num" and not 0 <= ival(b) < 1 << 31:
                # a constant: add to the half it belongs to
                lo, hi = ival(b) & 0xffffffff, ival(b) >> 32
                if lo or op != "add" or a.size != 8 or [(o, k) for o, k, _ in a.parts] != [(0, 4), (4, 4)]:
                    raise Unsupported("packed add")
                return Packed((a.parts[0], (4, 4, iadd(a.parts[1][2], ic(hi)))), 8)
            bp = b.parts if isinstance(b, Packed) else ((0, 4, b),)
            parts = {}
            for o, s, v in a.parts + bp:
                if (o, s) in parts:
                    if parts[(o, s)] is I0:
                        parts[(o, s)] = v
                    elif v is not I0:
                        raise Unsupported("packed or")
                else:
                    parts[(o, s)] = v
            return Packed(tuple((o, s, v) for (o, s), v in sorted(parts.items())), a.size)
        raise Unsupported("operation %s on packed integer" % op)

    def disjoint_or(self, st, a, b):
        # (x shl k) or y with 0 <= y < 2^k ; x and y both multiples pattern
        if isinstance(a, T) and isinstance(b, T):
            self.warnings.add("integer 'or' treated as disjoint addition")
            return iadd(a, b)
        raise Unsupported("or")

    def is01(self, v):
        vals = self.enum_values(v)
        return vals is not None and vals <= {0, 1}

    def nonneg(self, st, a):
        if st is None or a.op == "num":
            return
        c = ile(I0, a)
        if c is not TRUE:
            if not solve.feasible(st.pc, (bnot(c),), 300):
                return
            self.oblige(st, "unsigned operation on a non-negative value", "arith", c)

    def icmp(self, pred, ty, a, b, n=64):
        if ty.k == "vec":
            return tuple(self.icmp(pred, ty.elts[0], x, y) for x, y in zip(a, b))
        if ty.k == "ptr":
            return self.pcmp(pred, a, b)
        a, b = self.real(ty, a), self.real(ty, b)
        if ty.k == "i" and ty.n == 1:
            if pred == "eq":
                return iff(a, b)
            if pred == "ne":
                return bxor(a, b)
            raise Unsupported("icmp i1 " + pred)
        if isinstance(a, (Ptr, PIte)):
            a = self.ptr2int(a)
        if isinstance(b, (Ptr, PIte)):
            b = self.ptr2int(b)
        if isinstance(a, BVec) or isinstance(b, BVec):
            x, y = BVec.of(a, ty.n), BVec.of(b, ty.n)
            if pred in ("eq", "ne"):
                e = band(*[iff(p, q) for p, q in zip(x, y)])
                return e if pred == "eq" else bnot(e)
            if isinstance(b, T) and ival(b) == 0 and pred in ("slt", "sge"):
                return x[-1] if pred == "slt" else bnot(x[-1])
            if isinstance(b, T) and ival(b) == -1 and pred in ("sgt", "sle"):
                return bnot(x[-1]) if pred == "sgt" else x[-1]
            raise Unsupported("comparison %s of bit vectors" % pred)
        if isinstance(a, Bits) or isinstance(b, Bits):
            x, y = (a, b) if isinstance(a, Bits) else (b, a)
            if isinstance(y, Bits) and pred in ("eq", "ne"):
                e = req(x.v, y.v)
                return e if pred == "eq" else bnot(e)
            if isinstance(y, T) and y.op == "num":
                n = ival(y)
                if n == 0 and pred in ("slt", "sge"):
                    e = lt(x.v, R0)
                    return e if pred == "slt" else bnot(e)
                if n == -1 and pred in ("sgt", "sle"):
                    e = lt(x.v, R0)
                    return bnot(e) if pred == "sgt" else e
                if n == 0 and pred in ("eq", "ne"):
                    e = req(x.v, R0)
                    return e if pred == "eq" else bnot(e)
            raise Unsupported("icmp on double bits")
        if isinstance(a, Packed) or isinstance(b, Packed):
            if isinstance(a, Packed) and isinstance(b, T) and b.op == "num":
                n = ival(b) & ((1 << (8 * a.size)) - 1)
                small = lambda v: v if v.sort == "I" else ite(v, I1, I0)
                bits = lambda n, o, w: (n >> (8 * o)) & ((1 << (8 * w)) - 1)
                sgn = lambda x, w: x - (1 << (8 * w)) if x >> (8 * w - 1) else x
                if pred in ("eq", "ne"):
                    e = band(*[ieq(small(v), ic(sgn(bits(n, o, w), w))) for o, w, v in a.parts])
                    cov = 0
                    for o, w, v in a.parts:
                        cov |= ((1 << (8 * w)) - 1) << (8 * o)
                    if n & ~cov:
                        e = FALSE
                    return e if pred == "eq" else bnot(e)
                if pred in ("ugt", "ule"):
                    n += 1
                if pred in ("ugt", "uge", "ult", "ule") and n > 0 and n & (n - 1) == 0 and (n.bit_length() - 1) % 8 == 0:
                    k = (n.bit_length() - 1) // 8
                    if all(o >= k or o + w <= k for o, w, v in a.parts):
                        e = bnot(band(*[ieq(small(v), I0) for o, w, v in a.parts if o >= k]))
                        return e if pred in ("ugt", "uge") else bnot(e)
            if isinstance(a, Packed) and isinstance(b, Packed) and pred in ("eq", "ne"):
                e = band(*[ieq(x[2], y[2]) for x, y in zip(a.parts, b.parts)])
                return e if pred == "eq" else bnot(e)
            raise Unsupported("icmp on packed")
        if pred == "eq":
            return ieq(a, b)
        if pred == "ne":
            return bnot(ieq(a, b))
        if pred[0] == "s":
            return {"slt": lambda: ilt(a, b), "sle": lambda: ile(a, b),
                    "sgt": lambda: ilt(b, a), "sge": lambda: ile(b, a)}[pred]()
        # unsigned
        nb = ty.n

        def uns(x):
            if x.op == "num" and ival(x) < 0:
                return ic(ival(x) + (1 << nb))
            return x

        def ult(x, y):
            x, y = uns(x), uns(y)
            if y.op == "num":
                return band(ile(I0, x), ilt(x, y)) if ival(y) < (1 << (nb - 1)) else bor(ile(I0, x), ilt(iadd(x, ic(1 << nb)), y))
            if x.op == "num":
                if ival(x) < (1 << (nb - 1)):
                    return bor(ilt(y, I0), ilt(x, y))
                return band(ilt(y, I0), ilt(x, iadd(y, ic(1 << nb))))
            return ite(ile(I0, x), bor(ilt(y, I0), ilt(x, y)), band(ilt(y, I0), ilt(x, y)))

        if pred == "ult":
            return ult(a, b)
        if pred == "uge":
            return bnot(ult(a, b))
        if pred == "ugt":
            return ult(b, a)
        if pred == "ule":
            return bnot(ult(b, a))
        raise Unsupported(pred)

    def pcmp(self, pred, a, b):
        if isinstance(a, PIte):
            return ite(a.c, self.pcmp(pred, a.a, b), self.pcmp(pred, a.b, b))
        if isinstance(b, PIte):
            return ite(b.c, self.pcmp(pred, a, b.a), self.pcmp(pred, a, b.b))
        if a is UNDEF or b is UNDEF:
            return fresh("B", "undef")
        if a.obj == b.obj:
            if pred == "eq":
                return ieq(a.off, b.off)
            if pred == "ne":
                return bnot(ieq(a.off, b.off))
            return {"ult": lambda: ilt(a.off, b.off), "ule": lambda: ile(a.off, b.off),
                    "ugt": lambda: ilt(b.off, a.off), "uge": lambda: ile(b.off, a.off),
                    "slt": lambda: ilt(a.off, b.off), "sgt": lambda: ilt(b.off, a.off),
                    "sle": lambda: ile(a.off, b.off), "sge": lambda: ile(b.off, a.off)}[pred]()
        if pred == "eq":
            return FALSE
        if pred == "ne":
            return TRUE
        # ordering of different objects: unspecified but deterministic
        lo = a.obj < b.obj
        return boolc(lo if pred[1:] in ("lt", "le") else not lo)

    def fcmp(self, pred, ty, a, b):
        if ty.k == "vec":
            return tuple(self.fcmp(pred, ty.elts[0], x, y) for x, y in zip(a, b))
        a, b = self.real(ty, a), self.real(ty, b)
        isnan = lambda x: self.nanness(x)
        if pred == "uno":
            return bor(isnan(a), isnan(b))
        if pred == "ord":
            return bnot(bor(isnan(a), isnan(b)))
        if pred == "true":
            return TRUE
        if pred == "false":
            return FALSE
        p = pred[1:]
        r = {"eq": lambda: req(a, b), "ne": lambda: bnot(req(a, b)), "lt": lambda: lt(a, b),
             "le": lambda: le(a, b), "gt": lambda: lt(b, a), "ge": lambda: le(b, a)}[p]()
        nan = bor(isnan(a), isnan(b))
        if nan is not FALSE:
            return ite(nan, boolc(pred[0] == "u"), r)
        return r

    def nanness(self, x):
        if x.op == "nan":
            return TRUE
        if x.op == "ite" and has_ext(x):
            return ite(x.args[0], self.nanness(x.args[1]), self.nanness(x.args[2]))
        if x.op == "isnanable":
            return x.args[0]
        return FALSE

    def cast(self, op, ty, v, ty2):
        if op == "bitcast" and (ty.k == "vec" or ty2.k == "vec"):
            if v is UNDEF:
                return self.undef(ty2)
            if isinstance(v, Recast):
                if ty2.k == "vec" and ty2.n == v.ty.n:
                    return self.cast(op, v.ty, v.v, ty2)
                return v
            if ty.k == "vec" and ty2.k == "vec" and ty.n == ty2.n:
                return tuple(self.convert(x, ty2.elts[0]) for x in v)
            if ty.k == "vec" and ty.elts[0].n == 1 and ty.elts[0].k == "i" and ty2.k == "i":
                return BVec(self.real(ty.elts[0], x) for x in v)
            if ty.k == "i" and ty2.k == "vec" and ty2.elts[0].k == "i" and ty2.elts[0].n == 1:
                return BVec.of(v, ty2.n)
            if ty.k == "vec" and isinstance(v, tuple):
                return Recast(v, ty)
            raise Unsupported("vector bitcast")
        if ty.k == "vec":
            return tuple(self.cast(op, ty.elts[0], x, ty2.elts[0]) for x in v)
        if v is UNDEF:
            return UNDEF if ty2.k not in ("struct",) else self.undef(ty2)
        if isinstance(v, BVec):
            if op == "zext":
                return BVec(BVec.of(v, ty2.n))
            if op == "trunc":
                return v.b[0] if ty2.n == 1 else BVec(v.b[:ty2.n])
            raise Unsupported("cast %s of bit vector" % op)
        if op == "zext":
            if ty.n == 1:
                return ite(v, I1, I0)
            if isinstance(v, T) and v.op == "num" and ival(v) < 0:
                return ic(ival(v) & ((1 << ty.n) - 1))
            return v
        if op == "sext":
            if ty.n == 1:
                return ite(v, ic(-1), I0)
            return v
        if op == "trunc":
            if ty2.n == 1:
                return self.i2b(v)
            if isinstance(v, Packed):
                s2 = ty2.n // 8
                for o, s, x in v.parts:
                    if o == 0 and s == s2:
                        return self.convert(x, ty2)
                if all(o + s <= s2 or o >= s2 for o, s, x in v.parts):
                    return Packed(tuple(p for p in v.parts if p[0] < s2), s2)
                raise Unsupported("trunc of packed")
            if isinstance(v, Bits):
                raise Unsupported("trunc of double bits")
            if v.op == "num":
                n = ival(v) & ((1 << ty2.n) - 1)
                if n >> (ty2.n - 1):
                    n -= 1 << ty2.n
                return ic(n)
            return v
        if op in ("fpext", "fptrunc"):
            return v
        if op in ("sitofp", "uitofp"):
            if ty.k == "i" and ty.n == 1:
                return ite(v, R1 if op == "uitofp" else RM1, R0)
            return toreal(v)
        if op in ("fptosi", "fptoui"):
            if v.op == "num":
                x = v.args[0]
                return ic(int(x))
            if v.op == "toreal":
                return v.args[0]
            return ite(lt(v, R0), iscale(floor(neg(v)), -1), floor(v))
        if op == "ptrtoint":
            return self.ptr2int(v)
        if op == "inttoptr":
            return self.int2ptr(v)
        if op == "bitcast":
            if ty2.k == "vec" or ty.k == "vec":
                if isinstance(v, tuple) and ty2.k == "vec":
                    return v
                raise Unsupported("vector bitcast")
            return self.convert(v, ty2)
        raise Unsupported("cast " + op)

    def gep(self, base, sty, ops):
        off = I0
        t = sty
        layout(t)
        first = True
        for ty, v in ops:
            if v is UNDEF:
                raise Unsupported("gep undef")
            if first:
                off = iadd(off, iscale(v, t.size))
                first = False
                continue
            if t.k in ("arr", "vec"):
                t = t.elts[0]
                layout(t)
                off = iadd(off, iscale(v, t.size))
            else:
                k = ival(v)
                layout(t)
                off = iadd(off, ic(t.offs[k]))
                t = t.elts[k]
        return self.padd(base, off)

    def padd(self, p, off):
        if isinstance(p, PIte):
            return pite(p.c, self.padd(p.a, off), self.padd(p.b, off))
        if p is UNDEF:
            raise Unsupported("gep on undef")
        return Ptr(p.obj, iadd(p.off, off))


def subbytes(v, off, size):
    """bytes [off, off + size) of an integer that is a sum of small values shifted to distinct bytes"""
    out = I0
    used = set()
    for m, c in ipoly(v).items():
        if m == ():
            vals = [c]
            t = ic(c)
        elif len(m) == 1 and m[0].op == "ite" and m[0].args[1].op == "num" and m[0].args[2].op == "num":
            vals = [c * x.args[0] for x in m[0].args[1:]]
            t = iscale(m[0], c)
        else:
            return None
        if any(x < 0 or x.denominator != 1 for x in vals):
            return None
        touched = set(j for x in vals for j in range((int(x).bit_length() + 7) // 8) if (int(x) >> (8 * j)) & 255)
        if touched & used:
            return None
        used |= touched
        f = lambda x: ic(((int(x) >> (8 * off)) & ((1 << (8 * size)) - 1)))
        if m == ():
            out = iadd(out, f(c))
        else:
            out = iadd(out, ite(m[0].args[0], f(vals[0]), f(vals[1])))
    if any(j == off + size - 1 for j in used) and out.op == "num" and ival(out) >> (8 * size - 1):
        return ic(ival(out) - (1 << (8 * size)))
    return out


QUOT = {}  # truncated quotients, functions of their arguments


class Packed(object):
    """integer assembled from several smaller values (ABI coercion)"""
    __slots__ = ("parts", "size")

    def __init__(self, parts, size):
        self.parts, self.size = parts, size


class Infeasible(Exception):
    pass
