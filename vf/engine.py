"""The execution loop, calls, intrinsics and loop summarisation."""
import os
import re
import sys
from .exec import *
from .exec import Packed
from .terms import *
from . import solve
from .ir import layout, ity, DOUBLE, PTR

sys.setrecursionlimit(100000)

UNARY = {"sqrt": "sqrt", "exp": "exp", "log": "log", "log10": "log10", "sin": "sin", "cos": "cos",
         "tan": "tan", "atan": "atan", "cbrt": "cbrt", "tanh": "tanh", "acos": "acos", "asin": "asin"}

NOEFFECT = re.compile(
    r"^@(llvm\.(dbg|assume|experimental\.noalias|invariant|var\.annotation|prefetch|donothing|va_)|"
    r"_ZNSt8ios_base4Init|__cxa_atexit|_ZdlPv|_ZdaPv|free$|omp_|__kmpc_|_ZNSaI|__cxa_end_catch|__cxa_begin_catch)")

MAXFORK = 3


class Stop(object):
    __slots__ = ("depth", "header", "blocks")

    def __init__(self, depth, header, blocks):
        self.depth, self.header, self.blocks = depth, header, blocks


DEBUG = os.environ.get("VF_DEBUG")


class Engine(Exec):

    # ---------------------------------------------------------------- driver

    def run_function(self, name):
        f = self.m.fn(name)
        st = State()
        st.frames.append(Frame(f, {}, f.entry, None))
        self.executed.add(name)
        ends = self.explore([st], None)
        return ends

    def explore(self, states, stop):
        """run all states to the stop edges (or to the end); returns outcomes"""
        work = list(states)
        out = []
        while work:
            s = work.pop()
            try:
                self.run_path(s, stop, work, out)
            except Infeasible:
                pass
        return out

    def run_path(self, s, stop, work, out):
        while True:
            fr = s.frames[-1]
            blk = fr.fn.blocks[fr.block]
            ins = blk[fr.ip]
            self.steps += 1
            if self.steps > self.maxsteps:
                raise Unsupported("step limit")
            r = self.step(s, fr, ins, stop, work, out)
            if r is None:
                continue
            return

    def val(self, s, v, ty):
        if v[0] == "l":
            try:
                return s.frames[-1].loc[v[1]]
            except KeyError:
                raise Unsupported("undefined local " + v[1])
        return self.const(v, ty)

    def decide(self, s, c):
        """-> list of feasible truth values of c"""
        if c is TRUE:
            return [True]
        if c is FALSE:
            return [False]
        ids = set(x.id for x in s.pc)
        if c.id in ids:
            return [True]
        if bnot(c).id in ids:
            return [False]
        r = []
        t = solve.feasible(s.pc, (c,))
        if not t:
            return [False]
        f = solve.feasible(s.pc, (bnot(c),))
        return [True, False] if f else [True]

    def edge(self, s, to, stop, work, out):
        """take the CFG edge from the current block to `to`"""
        fr = s.frames[-1]
        frm = fr.block
        if stop is not None and len(s.frames) == stop.depth:
            if to == stop.header:
                out.append(("back", s, self.phi_values(s, frm, to)))
                return True
            if to not in stop.blocks:
                out.append(("exit", s, to))
                return True
        loops = fr.fn.loops()
        if to in loops and frm not in loops[to]:
            res = self.enter_loop(s, to)
            for (x, target) in res:
                self.edge_push(x, target, stop, work, out)
            return True
        vals = self.phi_values(s, frm, to)
        fr.loc.update(vals)
        fr.prev = frm
        fr.block = to
        fr.ip = self.nphi(fr.fn, to)
        return None

    def edge_push(self, s, to, stop, work, out):
        r = self.edge(s, to, stop, work, out)
        if r is None:
            work.append(s)

    def nphi(self, fn, b):
        n = 0
        for i in fn.blocks[b]:
            if i.op != "phi":
                break
            n += 1
        return n

    def phi_values(self, s, frm, to):
        fr = s.frames[-1]
        vals = {}
        for i in fr.fn.blocks[to]:
            if i.op != "phi":
                break
            vals[i.res] = self.val(s, i.a[0][frm], i.ty)
        return vals

    # ------------------------------------------------------------------ step

    def step(self, s, fr, ins, stop, work, out):
        op = ins.op
        a = ins.a
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem", "add", "sub", "mul", "sdiv", "udiv",
                  "srem", "urem", "and", "or", "xor", "shl", "lshr", "ashr"):
            fr.loc[ins.res] = self.binop(s, op, ins.ty, self.val(s, a[0], ins.ty), self.val(s, a[1], ins.ty))
        elif op == "load":
            fr.loc[ins.res] = self.load(s, self.val(s, a[0], PTR), ins.ty)
        elif op == "store":
            self.store(s, self.val(s, a[1], PTR), ins.ty, self.val(s, a[0], ins.ty))
        elif op == "getelementptr":
            ops = [(t, self.val(s, v, t)) for t, v in a[1]]
            fr.loc[ins.res] = self.gep(ops[0][1], a[0], ops[1:])
        elif op == "fneg":
            v = self.val(s, a[0], ins.ty)
            fr.loc[ins.res] = tuple(neg(x) for x in v) if isinstance(v, tuple) else neg(self.real(ins.ty, v))
        elif op == "fcmp":
            fr.loc[ins.res] = self.fcmp(a[0], ins.ty, self.val(s, a[1], ins.ty), self.val(s, a[2], ins.ty))
        elif op == "icmp":
            fr.loc[ins.res] = self.icmp(a[0], ins.ty, self.val(s, a[1], ins.ty), self.val(s, a[2], ins.ty))
        elif op == "select":
            c = self.val(s, a[1], a[0])
            x, y = self.val(s, a[2], ins.ty), self.val(s, a[3], ins.ty)
            if isinstance(c, tuple):
                fr.loc[ins.res] = tuple(self.merge(k, p, q) for k, p, q in zip(c, x, y))
            else:
                if c is UNDEF:
                    c = fresh("B", "undef")
                fr.loc[ins.res] = self.merge(c, x, y)
        elif op in ("zext", "sext", "trunc", "fptosi", "fptoui", "sitofp", "uitofp", "ptrtoint",
                    "inttoptr", "bitcast", "fpext", "fptrunc"):
            fr.loc[ins.res] = self.cast(op, a[0], self.val(s, a[1], a[0]), ins.ty)
        elif op == "alloca":
            layout(a[0])
            k = 1
            if a[1] is not None:
                k = self.val(s, a[1][1], a[1][0])
                if k.op != "num":
                    raise Unsupported("variable alloca")
                k = ival(k)
            o = self.newobj(s, "stack", a[0].size * k, "%s:%s" % (fr.fn.name, ins.res))
            fr.loc[ins.res] = Ptr(o.id, I0)
        elif op == "br":
            if a[0] is None:
                r = self.edge(s, a[1], stop, work, out)
                return r
            c = self.val(s, a[0], ity(1))
            if c is UNDEF:
                c = fresh("B", "undef")
            tv = self.decide(s, c)
            if len(tv) == 2:
                if self.opts.get("ifconv", 1) and self.if_convert(s, fr, c, a[1], a[2], stop):
                    return None
                s2 = s.clone()
                s2.assume(bnot(c))
                s.assume(c)
                self.edge_push(s2, a[2], stop, work, out)
                return self.edge(s, a[1], stop, work, out)
            s.assume(c if tv[0] else bnot(c))
            return self.edge(s, a[1] if tv[0] else a[2], stop, work, out)
        elif op == "switch":
            v = self.val(s, a[0], ins.ty)
            if v.op == "num":
                n = ival(v)
                for k, l in a[2]:
                    if k == n:
                        return self.edge(s, l, stop, work, out)
                return self.edge(s, a[1], stop, work, out)
            rest = []
            for k, l in a[2]:
                c = ieq(v, ic(k)) if v.sort == "I" else iff(v, boolc(k))
                rest.append(bnot(c))
                if True in self.decide(s, c):
                    s2 = s.clone()
                    s2.assume(c)
                    self.edge_push(s2, l, stop, work, out)
            d = band(*rest)
            if True in self.decide(s, d):
                s.assume(d)
                return self.edge(s, a[1], stop, work, out)
            return True
        elif op == "ret":
            v = None if a[0] is None else self.val(s, a[0], ins.ty)
            return self.do_return(s, v, stop, work, out)
        elif op in ("call", "invoke"):
            return self.call(s, fr, ins, stop, work, out)
        elif op == "extractvalue":
            v = self.val(s, a[0], ins.ty)
            for k in a[1]:
                v = v[k] if v is not UNDEF else UNDEF
            fr.loc[ins.res] = v
        elif op == "insertvalue":
            v = self.val(s, a[0], ins.ty)
            if v is UNDEF:
                v = self.undef(ins.ty)
            w = self.val(s, a[2], a[1])
            fr.loc[ins.res] = self.insert(v, a[3], w)
        elif op == "extractelement":
            v = self.val(s, a[0], ins.ty)
            i = self.val(s, a[1], ity(32))
            if i.op == "num":
                fr.loc[ins.res] = v[ival(i)]
            else:
                r = v[-1]
                for k in range(len(v) - 1):
                    r = self.merge(ieq(i, ic(k)), v[k], r)
                fr.loc[ins.res] = r
        elif op == "insertelement":
            v = list(self.val(s, a[0], ins.ty))
            i = self.val(s, a[2], ity(32))
            v[ival(i)] = self.val(s, a[1], ins.ty.elts[0])
            fr.loc[ins.res] = tuple(v)
        elif op == "shufflevector":
            v = tuple(self.val(s, a[0], ins.ty)) + tuple(self.val(s, a[1], ins.ty))
            m = self.val(s, a[3], a[2])
            fr.loc[ins.res] = tuple(UNDEF if k is UNDEF else v[ival(k)] for k in m)
        elif op == "freeze":
            v = self.val(s, a[0], ins.ty)
            if v is UNDEF:
                v = self.real(ins.ty, v)
            fr.loc[ins.res] = v
        elif op == "unreachable":
            self.oblige(s, "unreachable code is not reached", "assert", FALSE)
            return True
        elif op == "fence":
            pass
        elif op == "atomicrmw":
            p = self.val(s, a[1], PTR)
            v = self.val(s, a[2], ins.ty)
            old = self.load(s, p, ins.ty)
            k = a[0]
            new = {"add": lambda: iadd(old, v), "sub": lambda: isub(old, v), "xchg": lambda: v}[k]()
            self.store(s, p, ins.ty, new)
            fr.loc[ins.res] = old
        elif op == "cmpxchg":
            p = self.val(s, a[0], PTR)
            old = self.load(s, p, ins.ty)
            e = self.icmp("eq", ins.ty, old, self.val(s, a[1], ins.ty))
            self.store(s, p, ins.ty, self.merge(e, self.val(s, a[2], ins.ty), old))
            fr.loc[ins.res] = (old, e)
        elif op == "landingpad":
            fr.loc[ins.res] = s.ghost.get("exc", (NULL, I0))
        elif op == "resume":
            return self.unwind(s, stop, work, out, pop=True)
        elif op == "asm":
            raise Unsupported("inline assembly")
        else:
            raise Unsupported("instruction " + ins.text)
        fr.ip += 1
        return None

    def insert(self, v, idx, w):
        v = list(v)
        if len(idx) == 1:
            v[idx[0]] = w
        else:
            v[idx[0]] = self.insert(v[idx[0]], idx[1:], w)
        return tuple(v)

    def do_return(self, s, v, stop, work, out):
        if stop is not None and len(s.frames) == stop.depth:
            out.append(("ret", s, v))
            return True
        fr = s.frames.pop()
        if not s.frames:
            s.frames = []
            out.append(("end", s, v))
            self.paths += 1
            return True
        ins = fr.call
        c = s.frames[-1]
        if ins.res is not None:
            c.loc[ins.res] = v
        if ins.op == "invoke":
            return self.edge(s, ins.a[2], stop, work, out)
        c.ip += 1
        return None

    # ------------------------------------------------------------------ calls

    def finish(self, s, ins, v, stop, work, out):
        fr = s.frames[-1]
        if ins.res is not None:
            fr.loc[ins.res] = v
        if ins.op == "invoke":
            return self.edge(s, ins.a[2], stop, work, out)
        fr.ip += 1
        return None

    def cstr(self, s, p):
        while isinstance(p, PIte):  # calls that were merged by the compiler; one of the names
            p = p.a
        o = self.getobj(s, p.obj)
        out = bytearray()
        k = ival(p.off)
        while True:
            c = o.cells.get(k)
            b = 0 if c is None else ival(c[1]) & 255
            if b == 0:
                return out.decode("latin1")
            out.append(b)
            k += 1

    def call(self, s, fr, ins, stop, work, out):
        callee = ins.a[0]
        if callee[0] == "l":
            p = fr.loc[callee[1]]
            return self.call_ptr(s, fr, ins, p, stop, work, out)
        if callee[0] != "g":
            p = self.const(callee, PTR)
            return self.call_ptr(s, fr, ins, p, stop, work, out)
        return self.call_named(s, fr, ins, callee[1], stop, work, out)

    def call_ptr(self, s, fr, ins, p, stop, work, out):
        if isinstance(p, PIte):
            s2 = s.clone()
            tv = self.decide(s, p.c)
            for b in tv:
                x = s.clone()
                x.assume(p.c if b else bnot(p.c))
                if ins.a[0][0] == "l":
                    x.frames[-1].loc[ins.a[0][1]] = p.a if b else p.b
                work.append(x)
            return True
        if not isinstance(p, Ptr) or p.obj not in self.objfn:
            if isinstance(p, Ptr) and p.obj == 0:
                self.oblige(s, "call through null pointer", "memory", FALSE)
                return True
            raise Unsupported("indirect call %r" % (p,))
        return self.call_named(s, fr, ins, self.objfn[p.obj], stop, work, out)

    def resolve(self, name):
        g = self.m._raw.get(name)
        if g is not None and "alias" in g:
            al = self.m.glob(name)
            return al[1][1]
        return name

    def call_named(self, s, fr, ins, name, stop, work, out):
        name = self.resolve(name)
        n = name[1:].strip('"')
        if n.startswith("vf_") and n not in self.opts.get("defined_vf", ()) and name not in self.m.fns:
            return self.intrinsic_vf(s, ins, n, stop, work, out)
        f = self.m.fn(name)
        if f is not None:
            loc = {}
            args = ins.a[1]
            for (t, nm, byval), (at, av) in zip(f.params, args):
                v = self.val(s, av, at)
                loc[nm] = v
            if len(s.frames) > 200:
                raise Unsupported("recursion depth")
            self.executed.add(name)
            s.frames.append(Frame(f, loc, f.entry, ins))
            return None
        return self.extern(s, ins, n, stop, work, out)

    def argvals(self, s, ins):
        return [self.val(s, v, t) for t, v in ins.a[1]]

    def unwind(self, s, stop, work, out, pop=False):
        """exception propagates"""
        fr = s.frames[-1]
        first = True
        while True:
            if not (first and not pop):
                # leave the current frame
                if stop is not None and len(s.frames) == stop.depth:
                    out.append(("throw", s, None))
                    return True
                call = s.frames[-1].call
                s.frames.pop()
                if not s.frames:
                    self.throw_end(s, out)
                    return True
            else:
                call = fr.fn.blocks[fr.block][fr.ip]
            first = False
            pop = True
            if call is not None and call.op == "invoke":
                return self.edge(s, call.a[3], stop, work, out)

    def throw_end(self, s, out):
        if not self.allow_throw:
            self.obls.append(Obligation("no exception escapes", "assert", s.pc, FALSE, s.quants, "")) if not s.dry else None
        out.append(("throw", s, None))

    def sized(self, v):
        return ival(v) if v.op == "num" else v

    def extern(self, s, ins, n, stop, work, out):
        F = lambda v: self.finish(s, ins, v, stop, work, out)
        if NOEFFECT.match("@" + n):
            if ins.ty.k == "void":
                return F(None)
            if n.startswith("omp_get_num_threads") or n.startswith("omp_get_max_threads"):
                k = fresh("I", "nthreads")
                s.assume(ile(I1, k))
                return F(k)
            return F(self.zero(ins.ty))
        if n.startswith("llvm.lifetime."):
            a = self.argvals(s, ins)
            if isinstance(a[1], Ptr) and a[1].off is I0:
                o = self.getobj(s, a[1].obj)
                if o.arr is None and (o.cells or o.fills) and (ival(a[0]) == -1 or ival(a[0]) == o.size):
                    o = self.wobj(s, a[1].obj)
                    o.cells.clear()
                    o.fills = ()
            return F(None)
        a = self.argvals(s, ins)
        if n == "llvm.x86.sse2.maskmov.dqu":
            d, m = a[0], a[1]
            from .exec import Recast
            if not (isinstance(d, Recast) and isinstance(m, Recast) and d.ty.n == m.ty.n):
                raise Unsupported("masked store")
            e = d.ty.elts[0]
            layout(e)
            for k in range(d.ty.n):
                c = bnot(ieq(m.v[k], I0))
                if c is FALSE:
                    continue
                self.store_cond(s, c, self.padd(a[2], ic(k * e.size)), e, d.v[k])
            return F(None)
        if n.startswith("llvm."):
            return F(self.llvm(s, ins, n, a))
        if n in ("_Znwm", "_Znam", "malloc", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "aligned_alloc"):
            sz = a[-1] if n in ("aligned_alloc",) else a[0]
            o = self.newobj(s, "heap", self.sized(sz), "heap")
            return F(Ptr(o.id, I0))
        if n == "calloc":
            sz = imul(a[0], a[1])
            o = self.newobj(s, "heap", self.sized(sz), "heap")
            o.fills = ((0, ival(sz), 0),)
            return F(Ptr(o.id, I0))
        if n.startswith("_ZdlPv") or n.startswith("_ZdaPv") or n == "free":
            return F(None)
        if n in ("memcpy", "memmove"):
            self.memcpy(s, a[0], a[1], a[2])
            return F(a[0])
        if n == "memset":
            self.memset(s, a[0], a[1], a[2])
            return F(a[0])
        if n == "bcmp":
            return F(self.bcmp(s, a[0], a[1], a[2]))
        if n in ("__assert_fail", "__assert_rtn"):
            txt = ""
            try:
                txt = self.cstr(s, a[0])
            except Exception:
                pass
            self.oblige(s, "assertion holds: %s" % txt, "assert", FALSE)
            return True
        if n in ("abort", "_ZSt9terminatev", "exit", "_exit", "__clang_call_terminate"):
            self.oblige(s, "no abnormal termination", "assert", FALSE)
            return True
        if n == "__cxa_allocate_exception":
            o = self.newobj(s, "heap", self.sized(a[0]), "exception")
            return F(Ptr(o.id, I0))
        if n == "__cxa_free_exception":
            return F(None)
        if n in ("__cxa_throw", "__cxa_rethrow") or re.match(r"_ZSt\d+__throw_", n):
            ti = a[1] if n == "__cxa_throw" else NULL
            s.ghost["exc"] = (a[0] if a else NULL, ic(ti.obj))
            return self.unwind(s, stop, work, out)
        if n == "__cxa_guard_acquire":
            return F(I1)
        if n in ("__cxa_guard_release", "__cxa_guard_abort"):
            return F(None)
        if n in UNARY:
            return F(fn(UNARY[n], a[0]))
        if n in ("fabs",):
            return F(fabs(a[0]))
        if n in ("pow",):
            return F(fn("pow", a[0], a[1]))
        if n in ("fmax",):
            return F(rmax(a[0], a[1]))
        if n in ("fmin",):
            return F(rmin(a[0], a[1]))
        if n in ("atan2", "hypot", "fmod"):
            if n == "fmod":
                return F(self.binop(s, "frem", DOUBLE, a[0], a[1]))
            if n == "hypot":
                return F(fn("sqrt", add(mul(a[0], a[0]), mul(a[1], a[1]))))
            return F(fn(n, a[0], a[1]))
        if n in ("floor",):
            return F(toreal(floor(a[0])))
        if n in ("ceil",):
            return F(neg(toreal(floor(neg(a[0])))))
        if re.match(r"_ZN(K?)St(13runtime_error|16invalid_argument|11logic_error|12out_of_range|9exception)[CD]\d", n) or \
                re.match(r"_ZNSt7__cxx1119basic_(o?)stringstreamIcSt11char_traitsIcESaIcEE[CD]\d", n):
            return F(None)  # messages are not modelled
        if re.match(r"_ZNSols|_ZNSo9_M_insert|_ZSt16__ostream_insert|_ZStls|_ZNSo3put|_ZNSo5flush", n):
            return F(a[0])
        if re.match(r"_ZNKSt7__cxx1119?18?1?basic_(o?)stringstreamIcSt11char_traitsIcESaIcEE3strEv|"
                    r"_ZNKSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE3strEv", n):
            q = a[0]
            self.store(s, q, PTR, Ptr(q.obj, iadd(q.off, ic(16))))
            self.store(s, Ptr(q.obj, iadd(q.off, ic(8))), ity(64), I0)
            self.store(s, Ptr(q.obj, iadd(q.off, ic(16))), ity(8), I0)
            return F(None)
        if n in ("strlen",):
            return F(ic(len(self.cstr(s, a[0]))))
        if n in ("__cxa_pure_virtual",):
            raise Unsupported("pure virtual call")
        h = self.opts.get("extern", {}).get(n)
        if h is not None:
            return F(h(self, s, ins, a))
        for rx in self.opts.get("havoc", ()):
            if re.search(rx, n):
                self.trusted.add(n)
                if ins.ty.k == "void":
                    return F(None)
                return F(self.fresh_val(ins.ty, "ext"))
        raise Unsupported("call of external function " + n)

    def fresh_val(self, ty, base):
        if ty.k in ("struct", "packed"):
            return tuple(self.fresh_val(e, base) for e in ty.elts)
        if ty.k in ("arr", "vec"):
            return tuple(self.fresh_val(ty.elts[0], base) for _ in range(ty.n))
        if ty.k == "ptr":
            raise Unsupported("external pointer result")
        if ty.k == "i":
            if ty.n == 1:
                return fresh("B", base)
            return fresh("I", base)
        return fresh("R", base)

    def memcpy(self, s, d, r, n):
        if n is I0:
            return
        if isinstance(r, PIte):
            a, b = s.clone(), None
            raise Unsupported("memcpy conditional source") if n.op != "num" else None
            return
        if n.op != "num":
            raise Unsupported("memcpy of symbolic size")
        n = ival(n)
        so, do = self.getobj(s, r.obj), self.getobj(s, d.obj)
        if so.arr is not None or do.arr is not None:
            es = (so.arr or do.arr).esize
            ty = DOUBLE if (so.arr or do.arr).sort == "R" else ity(8 * es)
            for k in range(0, n, es):
                v = self.load(s, Ptr(r.obj, iadd(r.off, ic(k))), ty)
                self.store(s, Ptr(d.obj, iadd(d.off, ic(k))), ty, v)
            return
        self.bounds(s, so, r.off, n, "read")
        self.bounds(s, do, d.off, n, "write")
        if r.off.op != "num" or d.off.op != "num":
            if n % 8:
                raise Unsupported("memcpy at symbolic offset")
            vals = [self.load(s, Ptr(r.obj, iadd(r.off, ic(k))), DOUBLE) for k in range(0, n, 8)]
            for k, v in zip(range(0, n, 8), vals):
                self.store(s, Ptr(d.obj, iadd(d.off, ic(k))), DOUBLE, v)
            return
        ro, dof = ival(r.off), ival(d.off)
        cells = []
        for k, (sz, v) in so.cells.items():
            if k < ro + n and ro < k + sz:
                if k < ro or k + sz > ro + n:
                    raise Unsupported("memcpy splits a cell")
                cells.append((k, sz, v))
        fills = []
        for fo, fs, b in so.fills:
            lo, hi = max(fo, ro), min(fo + fs, ro + n)
            if lo < hi:
                fills.append((lo - ro + dof, hi - lo, b))
        o = self.wobj(s, d.obj)
        self.clear(o, dof, n)
        o.fills = o.fills + tuple(fills)
        for k, sz, v in cells:
            o.cells[k - ro + dof] = (sz, v)

    def bcmp(self, s, p, q, n):
        """zero iff the n bytes (integers) at p and q agree"""
        if n.op != "num":
            raise Unsupported("bcmp of symbolic size")
        n = ival(n)
        w = 8 if n % 8 == 0 else 4 if n % 4 == 0 else 1
        eq = TRUE
        for k in range(0, n, w):
            x = self.load(s, Ptr(p.obj, iadd(p.off, ic(k))), ity(8 * w))
            y = self.load(s, Ptr(q.obj, iadd(q.off, ic(k))), ity(8 * w))
            if isinstance(x, Ptr) or isinstance(y, Ptr) or x.sort != "I" or y.sort != "I":
                raise Unsupported("bcmp of values that are not integers")
            eq = band(eq, ieq(x, y))
        return ite(eq, I0, I1)

    def clear(self, o, off, n):
        for k in [k for k, (sz, _) in o.cells.items() if k < off + n and off < k + sz]:
            sz, w = o.cells[k]
            if k < off or k + sz > off + n:
                self.put(o, max(k, off), min(k + sz, off + n) - max(k, off), UNDEF)
                o.cells.pop(max(k, off), None)
            else:
                del o.cells[k]
        nf = []
        for fo, fs, b in o.fills:
            if fo + fs <= off or off + n <= fo:
                nf.append((fo, fs, b))
                continue
            if fo < off:
                nf.append((fo, off - fo, b))
            if fo + fs > off + n:
                nf.append((off + n, fo + fs - off - n, b))
        o.fills = tuple(nf)

    def memset(self, s, d, v, n):
        if n is I0:
            return
        o = self.getobj(s, d.obj)
        if v.op != "num":
            raise Unsupported("memset of symbolic value")
        if o.arr is not None:
            if n.op != "num" or ival(v) != 0:
                raise Unsupported("memset on array")
            for k in range(0, ival(n), o.arr.esize):
                self.store(s, Ptr(d.obj, iadd(d.off, ic(k))), DOUBLE if o.arr.sort == "R" else ity(8 * o.arr.esize),
                           R0 if o.arr.sort == "R" else I0)
            return
        if n.op != "num" or d.off.op != "num":
            raise Unsupported("memset of symbolic size")
        self.bounds(s, o, d.off, ival(n), "write")
        off, n = ival(d.off), ival(n)
        o = self.wobj(s, d.obj)
        self.clear(o, off, n)
        b = ival(v) & 255
        if b == 0:
            o.fills = o.fills + ((off, n, 0),)
        else:
            for k in range(n):
                o.cells[off + k] = (1, ic(b if b < 128 else b - 256))

    def llvm(self, s, ins, n, a):
        ty = ins.ty
        m = re.match(r"llvm\.(sqrt|fabs|exp|log|log10|pow|sin|cos|floor|ceil|trunc|rint|nearbyint|round|minnum|maxnum|minimum|maximum|"
                     r"copysign|fma|fmuladd|powi|canonicalize)\.", n)
        if m:
            k = m.group(1)

            def f(*x):
                x = [self.real(DOUBLE, y) if y is UNDEF else y for y in x]
                if k in ("sqrt", "exp", "log", "log10", "sin", "cos"):
                    return fn(k, x[0])
                if k == "fabs":
                    return fabs(x[0])
                if k == "pow":
                    return fn("pow", x[0], x[1])
                if k == "powi":
                    if x[1].op == "num":
                        e = ival(x[1])
                        r = R1
                        for _ in range(abs(e)):
                            r = mul(r, x[0])
                        return r if e >= 0 else div(R1, r)
                    return fn("pow", x[0], toreal(x[1]))
                if k == "floor":
                    return toreal(floor(x[0]))
                if k == "ceil":
                    return neg(toreal(floor(neg(x[0]))))
                if k == "trunc":
                    return ite(lt(x[0], R0), neg(toreal(floor(neg(x[0])))), toreal(floor(x[0])))
                if k in ("rint", "nearbyint", "round"):
                    return toreal(floor(add(x[0], rc(0.5))))
                if k in ("minnum", "minimum"):
                    return rmin(x[0], x[1])
                if k in ("maxnum", "maximum"):
                    return rmax(x[0], x[1])
                if k == "copysign":
                    m_ = fabs(x[0])
                    return ite(lt(x[1], R0), neg(m_), m_)
                if k in ("fma", "fmuladd"):
                    return add(mul(x[0], x[1]), x[2])
                return x[0]

            if ty.k == "vec":
                return tuple(f(*[y[i] if isinstance(y, tuple) else y for y in a]) for i in range(ty.n))
            return f(*a)
        m = re.match(r"llvm\.(smax|smin|umax|umin|abs|ctpop|ctlz|cttz|bswap)\.", n)
        if m and ty.k == "i":
            k = m.group(1)
            if k in ("smax", "umax"):
                if k == "umax":
                    self.nonneg(s, a[0]), self.nonneg(s, a[1])
                return ite(ile(a[0], a[1]), a[1], a[0])
            if k in ("smin", "umin"):
                if k == "umin":
                    self.nonneg(s, a[0]), self.nonneg(s, a[1])
                return ite(ile(a[0], a[1]), a[0], a[1])
            if k == "abs":
                return ite(ile(I0, a[0]), a[0], iscale(a[0], -1))
            if k == "ctpop" and a[0].op == "num":
                return ic(bin(ival(a[0]) & ((1 << ty.n) - 1)).count("1"))
            raise Unsupported(n)
        m = re.match(r"llvm\.(usub|uadd)\.sat\.", n)
        if m:
            if m.group(1) == "usub":
                return ite(ile(a[1], a[0]), isub(a[0], a[1]), I0)
            return iadd(a[0], a[1])
        m = re.match(r"llvm\.([us])(add|sub|mul)\.with\.overflow", n)
        if m:
            op = m.group(2)
            r = self.binop(s, op, ty.elts[0], a[0], a[1])
            if op == "sub" and m.group(1) == "u":
                return (r, ilt(a[0], a[1]))
            return (r, FALSE)
        if n.startswith("llvm.memcpy") or n.startswith("llvm.memmove"):
            self.memcpy(s, a[0], a[1], a[2])
            return None
        if n.startswith("llvm.memset"):
            self.memset(s, a[0], a[1], a[2])
            return None
        if n.startswith("llvm.expect"):
            return a[0]
        if n.startswith("llvm.is.constant"):
            return FALSE
        if n.startswith("llvm.objectsize"):
            return ic(-1)
        if n.startswith("llvm.stacksave"):
            return NULL
        if n.startswith("llvm.stackrestore"):
            return None
        if n.startswith("llvm.trap"):
            self.oblige(s, "no trap", "assert", FALSE)
            raise Infeasible()
        if n.startswith("llvm.eh.typeid.for"):
            return ic(a[0].obj)
        if n.startswith("llvm.load.relative"):
            raise Unsupported(n)
        if n.startswith("llvm.fshl") and False:
            pass
        if n.startswith("llvm.is.fpclass"):
            mask = ival(a[1])
            r = FALSE
            x = a[0]
            if mask & 3:
                r = bor(r, self.nanness(x))
            if mask & 0x200:
                r = bor(r, self.infness(x, "inf"))
            if mask & 0x4:
                r = bor(r, self.infness(x, "ninf"))
            if mask & 0x60:
                r = bor(r, req(x, R0))
            if mask & 0x180:
                r = bor(r, band(lt(R0, x), bnot(self.infness(x, "inf"))))
            if mask & 0x18:
                r = bor(r, band(lt(x, R0), bnot(self.infness(x, "ninf"))))
            return r
        if n.startswith("llvm.vector.reduce"):
            k = n.split(".")[3]
            f = {"fadd": add, "fmul": mul, "add": iadd, "fmin": rmin, "fmax": rmax}
            if k == "and":
                return band(*a[0])
            if k == "or":
                return bor(*a[0])
            if k in ("fadd", "fmul"):
                r = a[0]
                for x in a[1]:
                    r = f[k](r, x)
                return r
        raise Unsupported("intrinsic " + n)

    def infness(self, x, k):
        if x.op == k:
            return TRUE
        if x.op == "min":
            return band(*[self.infness(y, k) for y in x.args]) if k == "inf" else FALSE
        if x.op == "ite" and has_ext(x):
            return ite(x.args[0], self.infness(x.args[1], k), self.infness(x.args[2], k))
        return FALSE

    # -------------------------------------------------------- contract language

    def input(self, s, name, sort):
        k = s.ghost.get(("inp", name), 0)
        s.ghost[("inp", name)] = k + 1
        nm = name if k == 0 else "%s#%d" % (name, k)
        v = mk("var", (nm,), sort)
        if s.dry or any(f for f in s.active):
            pass
        self.inputs[nm] = v
        return v

    def intrinsic_vf(self, s, ins, n, stop, work, out):
        F = lambda v: self.finish(s, ins, v, stop, work, out)
        a = self.argvals(s, ins)
        if n == "vf_real":
            return F(self.input(s, self.cstr(s, a[0]), "R"))
        if n == "vf_real_in":
            v = self.input(s, self.cstr(s, a[0]), "R")
            s.assume(le(a[1], v))
            s.assume(le(v, a[2]))
            return F(v)
        if n == "vf_pos":
            v = self.input(s, self.cstr(s, a[0]), "R")
            s.assume(lt(R0, v))
            return F(v)
        if n == "vf_int":
            v = self.input(s, self.cstr(s, a[0]), "I")
            s.assume(ile(a[1], v))
            s.assume(ile(v, a[2]))
            return F(v)
        if n == "vf_bool":
            return F(self.input(s, self.cstr(s, a[0]), "B"))
        if n == "vf_assume":
            c = a[0]
            if c is FALSE:
                return True
            if c.op not in ("lt", "not", "ige0", "ieq0", "eq") and not solve.feasible(s.pc, (c,)):
                return True
            s.assume(c)
            return F(None)
        if n in ("vf_check", "vf_check_eq", "vf_check_le", "vf_check_lt", "vf_require", "vf_check_ieq"):
            name = self.cstr(s, a[0])
            if n in ("vf_check", "vf_require"):
                g = a[1]
            elif n == "vf_check_eq":
                g = req(a[1], a[2])
            elif n == "vf_check_ieq":
                g = ieq(a[1], a[2])
            elif n == "vf_check_le":
                g = le(a[1], a[2])
            else:
                g = lt(a[1], a[2])
            self.oblige(s, name, "requires" if n == "vf_require" else "ensures", g)
            if not s.dry and n in ("vf_check_eq", "vf_check_le", "vf_check_lt"):
                d = definedness(a[1])
                if d is not TRUE:
                    self.oblige(s, name + " [defined]", "defined", d)
            if n == "vf_require":
                s.assume(g)
            return F(None)
        if n == "vf_defined":
            name = self.cstr(s, a[0])
            self.oblige(s, name + " [defined]", "defined", definedness(a[1]))
            return F(None)
        if n == "vf_cover":
            name = self.cstr(s, a[0])
            if not s.dry:
                self.covers.setdefault(name, []).append(s.pc)
            return F(None)
        if n == "vf_throws":
            self.allow_throw = True
            return F(None)
        m = re.match(r"vf_uf(\d)$", n)
        if m:
            name = self.cstr(s, a[0])
            return F(mk("uf", (name,) + tuple(a[1:]), "R"))
        m = re.match(r"vf_iuf(\d)$", n)
        if m:
            name = self.cstr(s, a[0])
            return F(mk("iuf", (name,) + tuple(a[1:]), "I"))
        if n in ("vf_array", "vf_iarray", "vf_i32array", "vf_i8array"):
            # name, rank, extents*, strides*
            name = self.cstr(s, a[0])
            rank = ival(a[1])
            ext = list(a[2:2 + rank])
            strides = list(a[6:6 + rank - 1])
            es, sort = {"vf_array": (8, "R"), "vf_iarray": (8, "I"), "vf_i32array": (4, "I"), "vf_i8array": (1, "I")}[n]
            if not all(x.op == "var" for x in strides):
                raise Unsupported("array strides must be symbols")
            o = self.newobj(s, "array", None, name)
            o.arr = Arr(name, es, sort, tuple(strides), tuple(ext))
            self.arrays[name] = o.arr
            return F(Ptr(o.id, I0))
        if n == "vf_seq_add":
            # record an event with a tag and values (ghost trace)
            s.events = s.events + ((ival(a[0]),) + tuple(a[1:]),)
            return F(None)
        h = self.opts.get("vf", {}).get(n)
        if h is not None:
            return F(h(self, s, ins, a))
        raise Unsupported("unknown contract primitive " + n)

    # ------------------------------------------------------------------ loops

    def position(self, s, header, vals):
        fr = s.frames[-1]
        fr.loc.update(vals)
        fr.prev = None
        fr.block = header
        fr.ip = self.nphi(fr.fn, header)

    def enter_loop(self, s, header):
        """returns [(state, exit target)] with the states still at the exiting block"""
        fr = s.frames[-1]
        blocks = fr.fn.loops()[header]
        init = self.phi_values(s, fr.block, header)
        stop = Stop(len(s.frames), header, blocks)
        # 1. complete unrolling
        saved = (len(self.obls), self.steps, dict(self.inputs))
        self_loops = len(self.loops_summarised)
        x = s.clone()
        self.position(x, header, init)
        frontier = [x]
        exits = []
        forks = 0
        ok = True
        iters = 0
        maxforks = self.opts.get("maxforks", MAXFORK)
        bound = self.trip_bound(fr.fn, header, blocks, init)
        while frontier:
            iters += 1
            if iters > self.opts.get("maxunroll", 400):
                ok = False
                break
            outs = self.explore(frontier, stop)
            frontier = []
            ex = 0
            for o in outs:
                if o[0] == "back":
                    y = o[1]
                    self.position(y, header, o[2])
                    frontier.append(y)
                elif o[0] == "exit":
                    exits.append((o[1], o[2]))
                    ex += 1
                elif o[0] in ("ret", "throw"):
                    exits.append((o[1], o[0], o[2]))
                    ex += 1
                else:
                    exits.append((o[1], o[0], o[2]))
            if ex and frontier:
                forks += 1
                if forks <= bound:
                    continue
                if self.unbounded_fork(s, exits[-ex:], frontier) or forks > maxforks:
                    ok = False
                    break
            if len(frontier) > 64:
                ok = False
                break
        if ok:
            self.loops_unrolled += 1
            return self.finish_exits(exits)
        del self.obls[saved[0]:]
        return self.finish_exits(self.summarise(s, header, blocks, init, stop))

    PURE = frozenset(("fadd", "fsub", "fmul", "fdiv", "add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr",
                      "fneg", "fcmp", "icmp", "select", "zext", "sext", "trunc", "sitofp", "uitofp", "ptrtoint",
                      "inttoptr", "bitcast", "load", "getelementptr", "extractelement", "insertelement",
                      "shufflevector", "freeze", "extractvalue", "insertvalue"))

    def if_convert(self, s, fr, c, t, f, stop):
        """an if/else without side effects is executed on both sides and its values are merged"""
        fn = fr.fn
        b = fr.block
        preds = fn.preds

        def pure(x):
            blk = fn.blocks[x]
            if list(set(preds[x])) != [b] or blk[-1].op != "br" or blk[-1].a[0] is not None or x in fn.loops():
                return None
            for i in blk[:-1]:
                if i.op in self.PURE:
                    continue
                if i.op == "call" and i.a and isinstance(i.text, str) and "@llvm." in i.text and (
                        "@llvm.fabs" in i.text or "@llvm.sqrt" in i.text or "@llvm.fmuladd" in i.text):
                    continue
                if i.op == "call" and "call double @sqrt(" in i.text:
                    continue
                return None
            return blk[-1].a[1]
        jt, jf = pure(t), pure(f)
        if jt is not None and jt == jf:
            join = jt
            arms = [t, f]
        elif jt is not None and jt == f:
            join = f
            arms = [t, None]
        elif jf is not None and jf == t:
            join = t
            arms = [None, f]
        else:
            return False
        if join in fn.loops():
            return False
        if stop is not None and len(s.frames) == stop.depth and (join == stop.header or join not in stop.blocks):
            return False
        nobl = len(self.obls)
        res = []
        for arm, cond in zip(arms, (c, bnot(c))):
            x = s.clone()
            x.assume(cond)
            y = x.frames[-1]
            frm = b
            try:
                if arm is not None:
                    for i in fn.blocks[arm][:-1]:
                        self.steps += 1
                        if self.step(x, y, i, stop, None, None) is not None:
                            del self.obls[nobl:]
                            return False
                    frm = arm
                y.block = frm
                res.append((x, self.phi_values(x, frm, join), cond))
            except Infeasible:
                res.append(None)
        if None in res:
            del self.obls[nobl:]
            return False
        base = set(k.id for k in s.pc)
        facts = []
        for x, _, cond in res:
            if x.events != s.events:
                return False
            for k in x.pc:
                if k.id not in base and k is not cond:
                    facts.append(bor(bnot(cond), k))
        try:
            vals = {k: self.merge(c, res[0][1][k], res[1][1][k]) for k in res[0][1]}
        except Unsupported:
            del self.obls[nobl:]
            return False
        for k in facts:
            s.assume(k)
        fr.loc.update(vals)
        fr.prev = b
        self.joined = join
        fr.block = join
        fr.ip = self.nphi(fn, join)
        return True

    def trip_bound(self, fn, header, blocks, init):
        """number of iterations of a loop that counts from one constant to another (0 if it does not)"""
        best = 0
        defs = {}
        blocks = [b for b in blocks if fn.succs[b]]
        for b in blocks:
            for i in fn.blocks[b]:
                if i.res is not None:
                    defs[i.res] = i
        for i in fn.blocks[header]:
            if i.op != "phi":
                break
            v0 = init.get(i.res)
            step = None
            nxt = None
            # a flag that holds a constant from the second iteration on and decides the exit
            if all(v[0] != "l" for frm, v in i.a[0].items() if frm in blocks) and any(
                    fn.blocks[b][-1].op == "br" and fn.blocks[b][-1].a[0] == ("l", i.res)
                    and not (fn.blocks[b][-1].a[1] in blocks and fn.blocks[b][-1].a[2] in blocks) for b in blocks):
                best = max(best, 3)
                continue
            if not isinstance(v0, T) or v0.op != "num" or v0.sort != "I":
                continue
            for frm, v in i.a[0].items():
                if frm in blocks:
                    d = defs.get(v[1]) if v[0] == "l" else None
                    if d is None or d.op != "add" or d.a[0] != ("l", i.res):
                        step = None
                        break
                    k = self.const(d.a[1], d.ty) if d.a[1][0] != "l" else None
                    if k is None or not isinstance(k, T) or k.op != "num" or (step is not None and step != ival(k)):
                        step = None
                        break
                    step, nxt = ival(k), v[1]
            if not step:
                continue
            for b in blocks:
                t = fn.blocks[b][-1]
                if t.op != "br" or t.a[0] is None or (t.a[1] in blocks and t.a[2] in blocks) or t.a[0][0] != "l":
                    continue
                c = defs.get(t.a[0][1])
                if c is None or c.op != "icmp":
                    continue
                if c.a[1] in (("l", i.res), ("l", nxt)) and c.a[2][0] != "l":
                    e = self.const(c.a[2], c.ty)
                    if isinstance(e, T) and e.op == "num":
                        n = (ival(e) - ival(v0)) // step + 1
                        if 0 < n <= 16:
                            best = max(best, n)
        return best

    def resolve_ites(self, s, t):
        """replace integer conditionals that equal one of their branches under the path condition"""
        for rnd in range(8):
            its = [x for m in ipoly(t) for x in m if x.op == "ite"]
            done = True
            for x in its:
                for br in (x.args[1], x.args[2]):
                    if not solve.feasible(s.pc, (bnot(ieq(x, br)),)):
                        t = subst(t, {x: br})
                        done = False
                        break
                if not done:
                    break
            if done:
                return t
        return t

    def finish_exits(self, exits):
        res = []
        for e in exits:
            if len(e) == 3:
                res.append((e[0], (e[1], e[2])))
            else:
                res.append(e)
        return res

    def edge_push(self, s, to, stop, work, out):
        if isinstance(to, tuple):
            kind, v = to
            if kind == "ret":
                r = self.do_return(s, v, stop, work, out)
                if r is None:
                    work.append(s)
                return
            if kind == "throw":
                r = self.unwind(s, stop, work, out, pop=True)
                if r is None:
                    work.append(s)
                return
            out.append((kind, s, v))
            return
        r = self.edge(s, to, stop, work, out)
        if r is None:
            work.append(s)

    def unbounded_fork(self, s, exits, backs):
        base = set(s.pc)
        for b in backs:
            for c in b.pc:
                if c in base:
                    continue
                if c.op in ("ige0", "ieq0", "not"):
                    for v in varset(c):
                        if v.sort == "I" and not self.small_range(s, v):
                            return True
        return False

    def small_range(self, s, v):
        lo = hi = None
        for c in s.pc:
            if c.op == "ige0":
                p = ipoly(c.args[0])
                if set(p) <= {(v,), ()} and (v,) in p:
                    k = p[(v,)]
                    b = p.get((), Fraction(0))
                    if k > 0:
                        x = Fraction(-b) / k
                        lo = x if lo is None else max(lo, x)
                    else:
                        x = Fraction(b) / -k
                        hi = x if hi is None else min(hi, x)
        return lo is not None and hi is not None and hi - lo <= 16

    # -- summarisation ---------------------------------------------------------

    def summarise(self, s, header, blocks, init, stop):
        L = LoopSummary(self, s, header, blocks, init, stop)
        r = L.run()
        self.loops_summarised.append((s.frames[-1].fn.name, header, L.describe()))
        return r


_defd = {}


def definedness(t):
    """condition under which every division, square root and logarithm that contributes
    to the value is defined and the value is finite"""
    r = _defd.get(t.id)
    if r is not None:
        return r
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in _defd:
            stack.pop()
            continue
        ch = children(x)
        todo = [c for c in ch if c.id not in _defd]
        if todo:
            stack.extend(todo)
            continue
        D = lambda y: _defd[y.id]
        if x.op in ("inf", "ninf", "nan"):
            r = FALSE
        elif x.op == "min":
            def dinf(y):
                if y.op == "inf":
                    return TRUE
                if y.op == "ite" and has_ext(y):
                    c, a, b = y.args
                    return band(D(c), bor(bnot(c), dinf(a)), bor(c, dinf(b)))
                return D(y)

            def fin(y):
                if y.op == "inf":
                    return FALSE
                if y.op == "ite" and has_ext(y):
                    return ite(y.args[0], fin(y.args[1]), fin(y.args[2]))
                return TRUE
            r = band(bor(*[fin(y) for y in x.args]), *[dinf(y) for y in x.args])
        elif x.op == "ite":
            c, a, b = x.args
            r = band(D(c), bor(bnot(c), D(a)), bor(c, D(b)))
        elif x.op == "div":
            r = band(D(x.args[0]), D(x.args[1]), bnot(req(x.args[1], R0)))
        elif x.op == "fn:sqrt":
            r = band(D(x.args[0]), le(R0, x.args[0]))
        elif x.op == "fn:log" or x.op == "fn:log10":
            r = band(D(x.args[0]), lt(R0, x.args[0]))
        elif x.op == "fn:pow":
            r = band(D(x.args[0]), D(x.args[1]), lt(R0, x.args[0]))
        elif x.op == "var" and str(x.args[0]).startswith("undef!"):
            r = FALSE
        else:
            r = band(*[D(c) for c in ch]) if ch else TRUE
        _defd[x.id] = r
        stack.pop()
    return _defd[t.id]


class LoopSummary(object):
    """Synthesises an inductive description of an arbitrary iteration.

    For iteration n (0 <= n < N):
      affine variables      x(n) = x0 + n*step
      lagging variables     x(n) = e(n-1)   (x0 for n = 0)
      other variables       arbitrary value satisfying the checked invariants
      array writes          for all m < n:  arr[idx(m)] = val(m)
    The description is a fixpoint of symbolically executing the body, i.e. every round
    re-executes the real body and the round is accepted only if it reproduces itself.
    """

    def __init__(self, E, s, header, blocks, init, stop):
        self.E, self.s, self.header, self.blocks, self.init, self.stop = E, s, header, blocks, init, stop
        self.n = fresh("I", "it")
        self.kinds = {}  # key -> ('affine', step) | ('prev', term in n) | ('inv',) | ('gen', var, invs)
        self.vars = dict(init)  # key -> initial value ; phi name or (obj, off, size)
        for k, v in list(self.vars.items()):
            self.kinds[k] = self.initial_kind(k, v)
        self.W = {}
        self.notes = []

    def describe(self):
        return {str(k): (v[0] if v[0] != "gen" else "gen%s" % [str(i[0]) for i in v[2]]) for k, v in self.kinds.items()}

    def initial_kind(self, k, v):
        E = self.E
        base = str(k) if isinstance(k, str) else "cell"
        if isinstance(v, Ptr):
            return ("gen", fresh("I", base), ())
        if isinstance(v, T):
            if v.sort == "R" and has_ext(v):
                return ("gen", ite(fresh("B", base + ".inf"), INF, fresh("R", base)), ())
            return ("gen", fresh(v.sort, base), ())
        if isinstance(v, Bits):
            return ("gen", fresh("R", base), ())
        if v is UNDEF:
            return ("undef",)
        if isinstance(v, tuple):
            raise Unsupported("aggregate loop variable")
        if isinstance(v, PIte):
            return ("genp",)
        raise Unsupported("loop variable %r" % (v,))

    def value(self, k, n):
        """symbolic value of variable k at iteration n"""
        kind = self.kinds[k]
        v0 = self.vars[k]
        if kind[0] == "inv":
            return v0
        if kind[0] == "affine":
            step = kind[1]
            if isinstance(v0, Ptr):
                return Ptr(v0.obj, iadd(v0.off, imul(n, step)))
            if v0.sort == "R":
                return add(v0, mul(toreal(n), step))
            return iadd(v0, imul(n, step))
        if kind[0] == "prev":
            e = self.at(kind[1], isub(n, I1))
            if kind[2]:
                return e
            return self.E.merge(ieq(n, I0), v0, e)
        if kind[0] == "gen":
            if isinstance(v0, Ptr):
                return Ptr(v0.obj, kind[1])
            if isinstance(v0, Bits):
                return Bits(kind[1])
            return kind[1]
        if kind[0] == "eq":
            return self.value(kind[1], n)
        if kind[0] == "undef":
            return UNDEF
        if kind[0] == "genp":
            raise Unsupported("conditional pointer carried by a loop")
        raise Unsupported(kind[0])

    def at(self, e, n):
        env = {self.n: n}
        if isinstance(e, Ptr):
            return Ptr(e.obj, subst(e.off, env))
        if isinstance(e, Bits):
            return Bits(self.at(e.v, n))
        if isinstance(e, PIte):
            return pite(subst(e.c, env), self.at(e.a, n), self.at(e.b, n))
        if e is UNDEF:
            return e
        return subst(e, env)

    def hvars(self):
        r = set()
        for k, kind in self.kinds.items():
            if kind[0] == "gen":
                r |= varset(kind[1])
        return r

    def mapped(self, oid, bound):
        """array log entries for iterations m < bound"""
        out = []
        for w in self.W.get(oid, ()):
            m = mk("var", ("m%d!%d" % (len(w.params), next(FRESH)),), "I")
            env = {self.n: m}
            memo = {}
            sub_ = lambda t: subst(t, env, memo)
            out.append(W(w.params + (m,), band(ile(I0, m), ilt(m, bound), sub_(w.cond)),
                         tuple(sub_(i) for i in w.idx), sub_(w.val)))
        return tuple(out)

    def state_at(self, n, extra, dry):
        E = self.E
        x = self.s.clone()
        x.dry = dry or self.s.dry
        for c in extra:
            x.assume(c)
        vals = {}
        for k in self.vars:
            v = self.value(k, n)
            if isinstance(k, str):
                vals[k] = v
            else:
                o = E.wobj(x, k[0])
                E.put(o, k[1], k[2], v)
        for oid in self.W:
            o = E.wobj(x, oid)
            o.arr = o.arr.with_log(o.arr.log + self.mapped(oid, n))
        E.position(x, self.header, vals)
        return x

    def split(self, outs):
        backs = [o for o in outs if o[0] == "back"]
        exits = [o for o in outs if o[0] != "back"]
        return backs, exits

    def pathcond(self, x, st):
        base = set(st.pc)
        return [c for c in x.pc if c not in base]

    def run(self):
        E = self.E
        n = self.n
        stable = False
        self.Nterm = None
        self.Nbound = None
        self.rels = ()
        self.guardlit = None
        for rnd in range(12):
            extra = [ile(I0, n)] + self.invfacts(n)
            if self.Nterm is not None:
                extra.append(ilt(n, self.Nterm))
            st = self.state_at(n, extra, True)
            f0 = next(FRESH)
            outs = E.explore([st.clone()], self.stop)
            backs, exits = self.split(outs)
            if self.Nterm is None:
                self.find_N(st, backs, exits)
                if self.Nterm is not None:
                    continue
            if not backs:
                # the body never repeats under the known facts
                stable = True
                break
            if self.analyse(st, backs, f0):
                stable = True
                break
            if DEBUG:
                print("round", rnd, self.header, {k: kd[0] for k, kd in self.kinds.items()}, len(backs), len(self.W), file=sys.stderr)
        if not stable:
            raise Unsupported("no loop invariant found for %s %s" % (self.s.frames[-1].fn.name, self.header))
        self.invariants(st, backs)
        if stable and self.relations(backs):
            # again with the equal variables identified
            for rnd in range(8):
                st = self.state_at(n, [ile(I0, n)] + self.invfacts(n) + (
                    [ilt(n, self.Nterm)] if self.Nterm is not None else []), True)
                f0 = next(FRESH)
                backs, exits = self.split(E.explore([st.clone()], self.stop))
                if not backs or self.analyse(st, backs, f0):
                    break
            else:
                raise Unsupported("no stable loop invariant for %s" % self.header)
            self.invariants(st, backs)
        # obligations of an arbitrary iteration
        extra = [ile(I0, n)] + self.invfacts(n)
        if self.Nterm is not None:
            extra.append(ilt(n, self.Nterm))
        elif self.Nbound is not None:
            extra.append(ile(n, self.Nbound))
        if not self.s.dry:
            st = self.state_at(n, extra, False)
            E.explore([st], self.stop)
        # exit
        if self.Nterm is not None:
            N = self.Nterm
        else:
            N = fresh("I", "N")
        extra = [ile(I0, N)]
        if self.Nterm is None and self.Nbound is not None:
            extra.append(ile(N, self.Nbound))
        self.exitvars = {}
        kinds = self.kinds
        self.kinds = dict(kinds)
        rename = {}
        for k, kind in kinds.items():
            if kind[0] == "gen":
                for v in varset(kind[1]):
                    rename[v] = fresh(v.sort, str(v.args[0]).split("!")[0] + "@exit")
                self.kinds[k] = ("gen", subst(kind[1], rename), kind[2])
        extra += self.invfacts(N)
        x = self.state_at(N, extra, self.s.dry)
        self.kinds_exit = self.kinds
        self.kinds = kinds
        self.exit_facts(x, st, backs, N, rename)
        outs = E.explore([x], self.stop)
        backs2, exits = self.split(outs)
        res = []
        for o in exits:
            if o[0] == "exit":
                res.append((o[1], o[2]))
            else:
                res.append((o[1], o[0], o[2]))
        return res

    def invfacts(self, n):
        r = []
        for k, kind in self.kinds.items():
            if kind[0] == "gen":
                for (nm, f) in kind[2]:
                    r.append(f(kind[1], self.vars[k]))
        for c in self.rels:
            r.append(c(lambda k: self.value(k, n)))
        return r

    def find_N(self, st, backs, exits):
        """closed form of the number of completed iterations"""
        n = self.n
        hv = self.hvars()
        self.Nbound = None
        if not backs:
            return
        common = None
        for b in backs:
            lits = [c for c in self.pathcond(b[1], st)]
            common = set(lits) if common is None else common & set(lits)
        s = self.s
        for lit in sorted(common, key=lambda t: t.id):
            if n not in varset(lit) or varset(lit) & hv:
                continue
            if lit.op == "ige0":
                p = ipoly(lit.args[0])
                b = p.get((n,), Fraction(0))
                if b == 0:
                    N = self.symbolic_step(p)
                    if N is not None:
                        neg_ = bnot(lit)
                        if all(neg_ in o[1].pc for o in exits if o[0] == "exit") and all(o[0] == "exit" for o in exits):
                            self.Nterm = N
                            self.guardlit = lit
                            return
                    continue
                if b >= 0 or any(n in varset(y) for m in p if m != (n,) for y in m):
                    continue
                a = ifrom({m: c for m, c in p.items() if m != (n,)})
                bb = -b
                if bb.denominator != 1:
                    continue
                N = iadd(idivc(a, bb.numerator), I1)
                if not self.valid(s, ige0(iadd(a, ic(bb.numerator)))):
                    N = ite(ige0(a), N, I0)
            elif lit.op == "not" and lit.args[0].op == "ieq0":
                p = ipoly(lit.args[0].args[0])
                b = p.get((n,), Fraction(0))
                if b == 0 or any(n in varset(y) for m in p if m != (n,) for y in m):
                    continue
                a = ifrom({m: (-c if b > 0 else c) for m, c in p.items() if m != (n,)})
                bb = abs(b)
                if bb != 1:
                    if not self.valid(s, ieq(imodc(a, bb.numerator), I0)):
                        continue
                if not self.valid(s, ige0(a)):
                    continue
                N = iscale(a, Fraction(1) / bb)
            else:
                continue
            # every exit must be through the negation of this literal
            neg_ = bnot(lit)
            if all(neg_ in o[1].pc for o in exits if o[0] == "exit") and all(o[0] == "exit" for o in exits):
                self.Nterm = N
                self.guardlit = lit
                return
            # other exits: a bound of the number of completed iterations
            if self.Nbound is None:
                self.Nbound = N

    def symbolic_step(self, p):
        """A - S*n >= 0 with a symbolic step S > 0 dividing A"""
        n = self.n
        S = {}
        A = {}
        for m, c in p.items():
            if n in m:
                r = list(m)
                r.remove(n)
                if n in r or any(n in varset(y) for y in r):
                    return None
                S[tuple(r)] = -c
            else:
                if any(n in varset(y) for y in m):
                    return None
                A[m] = c
        if len(S) != 1:
            return None
        (sm, sc), = S.items()
        if not sm or abs(sc) != 1 or sc < 0:
            return None
        if not self.valid(self.s, ilt(I0, ifrom({sm: Fraction(1)}))):
            return None
        A = self.E.resolve_ites(self.s, ifrom(A))
        q = {}
        for m, c in ipoly(A).items():
            r = list(m)
            for y in sm:
                if y not in r:
                    return None
                r.remove(y)
            q[tuple(r)] = c
        q = ifrom(q)
        if self.valid(self.s, ige0(iadd(q, I1))):
            return iadd(q, I1)
        return ite(ige0(q), iadd(q, I1), I0)

    def valid(self, s, c):
        return not solve.feasible(s.pc, (bnot(c),), 1500)

    def analyse(self, st, backs, f0):
        """True if the current description reproduces itself"""
        E = self.E
        ok = True
        n = self.n
        # carried cells
        for b in backs:
            x = b[1]
            for oid, o in x.mem.items():
                old = st.mem.get(oid)
                if old is o:
                    continue
                if old is None:
                    if oid in E.base:
                        old = E.base[oid]
                    else:
                        continue  # object created inside the body
                if o.arr is not None:
                    continue
                if o.fills != old.fills:
                    o = self.materialise(o, old)
                    x.mem[oid] = o
                for off, (sz, v) in o.cells.items():
                    oc = old.cells.get(off)
                    if oc is not None and oc[0] == sz and (oc[1] is v or oc[1] == v):
                        continue
                    key = (oid, off, sz)
                    if key not in self.vars:
                        o0 = E.getobj(self.s, oid)
                        c0 = o0.cells.get(off)
                        if c0 is not None and c0[0] == sz:
                            v0 = c0[1]
                        else:
                            try:
                                v0 = E.load_bytes(o0, off, sz)
                            except Unsupported:
                                v0 = UNDEF
                        if v0 is UNDEF:
                            if isinstance(v, T):
                                v0 = fresh(v.sort, "undef")
                            elif isinstance(v, Bits):
                                v0 = Bits(fresh("R", "undef"))
                            else:
                                v0 = v
                        if v0 is I0 and isinstance(v, T) and v.sort == "R":
                            v0 = R0
                        if isinstance(v0, Packed):
                            raise Unsupported("packed loop cell")
                        self.vars[key] = v0
                        self.kinds[key] = self.initial_kind(key, v0)
                        ok = False
        if not ok:
            return False
        # updates
        hv = self.hvars()
        conds = [band(*self.pathcond(b[1], st)) for b in backs]
        self.updates = {}
        for k in self.vars:
            us = []
            for b in backs:
                if isinstance(k, str):
                    us.append(b[2][k])
                else:
                    c = b[1].mem.get(k[0])
                    c = (c or E.getobj(b[1], k[0])).cells.get(k[1])
                    us.append(c[1] if c is not None and c[0] == k[2] else UNDEF)
            self.updates[k] = us
            kind = self.kinds[k]
            cur = self.value(k, n)
            if kind[0] in ("gen", "undef"):
                new = self.classify(k, kind, cur, us, conds, hv, st, f0)
                if new is not None:
                    self.kinds[k] = new
                    ok = False
            elif kind[0] != "eq":
                # recheck
                for u in us:
                    if not self.same(u, self.value(k, iadd(n, I1)) if kind[0] != "prev" else kind[1]):
                        if kind[0] == "inv" or kind[0] == "affine" or kind[0] == "prev":
                            if kind[0] == "prev" and self.same(self.merged(us, conds), kind[1]):
                                continue
                            # fall back to an arbitrary value
                            if getattr(self, "demoted", None) is None:
                                self.demoted = set()
                            self.demoted.add(k)
                            self.kinds[k] = self.initial_kind(k, self.vars[k])
                            ok = False
                            break
        if not ok:
            return False
        # array writes
        fresh_in_body = lambda t: [v for v in varset(t) if self.is_body_var(v, f0) or v in hv]
        newW = {}
        for b, c in zip(backs, conds):
            for oid, o in b[1].mem.items():
                if o.arr is None:
                    continue
                old = st.mem.get(oid)
                if old is o or old is None and oid not in self.s.mem:
                    continue
                base = len(old.arr.log)
                for w in o.arr.log[base:]:
                    cond = band(c, w.cond)
                    # drop the range facts of n itself
                    ps = w.params
                    val = w.val
                    allowed = set(ps) | {n}
                    bad = [v for v in fresh_in_body(val) if v not in allowed]
                    if bad:
                        val = mk("rd", ("skolem%d!%d" % (f0, len(newW)),) + tuple(ps) + (n,), val.sort)
                        self.notes.append("havoc")
                    for t in (cond,) + w.idx:
                        if [v for v in fresh_in_body(t) if v not in allowed]:
                            raise Unsupported("array write depends on loop-carried data: %s %s\n%s" % (
                                show(t, 5)[:300], [v for v in fresh_in_body(t) if v not in allowed], self.describe()))
                    newW.setdefault(oid, []).append(self.canon(W(ps, cond, w.idx, val)))
        newW = {o: tuple(ws) for o, ws in newW.items()}
        key = lambda D: {o: tuple(w.key() for w in ws) for o, ws in D.items()}
        if key(newW) != key(self.W):
            self.W = newW
            return False
        self.check_disjoint()
        return True

    def materialise(self, o, old):
        """turn zero-initialised ranges into explicit cells"""
        o = o.copy()
        for fo, fs, b in o.fills:
            if b != 0 or fs > 4096:
                raise Unsupported("memset inside a loop")
            cov = set()
            for k, (sz, v) in o.cells.items():
                cov.update(range(k, k + sz))
            k = fo
            while k < fo + fs:
                n = 8 if k % 8 == 0 else 4 if k % 4 == 0 else 1
                while n > 1 and (k + n > fo + fs or any(j in cov for j in range(k, k + n))):
                    n //= 2
                if k not in cov:
                    o.cells[k] = (n, I0)
                k += n
        o.fills = old.fills
        return o

    def is_body_var(self, v, f0):
        nm = str(v.args[0])
        if "!" not in nm:
            return False
        try:
            return int(nm.rsplit("!", 1)[1]) > f0
        except ValueError:
            return False

    def canon(self, w):
        env = {}
        for i, p in enumerate(w.params):
            env[p] = mk("var", ("p$%d$%d" % (len(w.params), i),), "I")
        if not env:
            return w
        memo = {}
        f = lambda t: subst(t, env, memo)
        return W(tuple(env[p] for p in w.params), f(w.cond), tuple(f(i) for i in w.idx), f(w.val))

    def check_disjoint(self):
        """writes of different iterations never hit the same element"""
        n = self.n
        m = fresh("I", "m")
        for oid, ws in self.W.items():
            for i, w in enumerate(ws):
                for j, v in enumerate(ws):
                    if i == j and not w.params:
                        # injectivity is established when the index is solved for n
                        continue
                    env = {n: m}
                    for q in v.params:
                        env[q] = fresh("I", "q")
                    memo = {}
                    f = lambda t: subst(t, env, memo)
                    eqs = [ieq(a, f(b)) for a, b in zip(w.idx, v.idx)]
                    if any(e is FALSE for e in eqs):
                        continue
                    if not solve.feasible((), tuple(eqs) + (ilt(n, m),)):
                        continue
                    fs = eqs + [w.cond, f(v.cond), ilt(n, m), ile(I0, n)]
                    if self.Nterm is not None:
                        fs += [ilt(m, self.Nterm)]
                    if solve.feasible(self.s.pc, tuple(fs), 3000):
                        raise Unsupported("array writes of different iterations may overlap")

    def same(self, a, b):
        return a is b or a == b

    def merged(self, us, conds):
        r = us[-1]
        for u, c in list(zip(us, conds))[-2::-1]:
            r = self.E.merge(c, u, r)
        return r

    def classify(self, k, kind, cur, us, conds, hv, st, f0):
        E = self.E
        v0 = self.vars[k]
        demoted = getattr(self, "demoted", None) or set()
        if kind[0] == "undef":
            if all(u is UNDEF for u in us):
                return None
            u = [u for u in us if u is not UNDEF][0]
            if isinstance(u, T):
                self.vars[k] = fresh(u.sort, "undef")
            else:
                self.vars[k] = u
            return self.initial_kind(k, self.vars[k])
        if k in demoted:
            return None
        if all(self.same(u, cur) for u in us):
            return ("inv",)
        if isinstance(v0, Ptr):
            if all(isinstance(u, Ptr) and u.obj == v0.obj for u in us):
                ds = [isub(u.off, kind[1]) for u in us]
                if all(d is ds[0] for d in ds) and not (varset(ds[0]) & hv) and self.n not in varset(ds[0]) \
                        and not any(self.is_body_var(v, f0) for v in varset(ds[0])):
                    return ("affine", ds[0])
        elif isinstance(v0, T) and v0.sort == "I":
            if all(isinstance(u, T) for u in us):
                ds = [isub(u, kind[1]) for u in us]
                if all(d is ds[0] for d in ds) and not (varset(ds[0]) & hv) and self.n not in varset(ds[0]) \
                        and not any(self.is_body_var(v, f0) for v in varset(ds[0])):
                    return ("affine", ds[0])
        elif isinstance(v0, T) and v0.sort == "R" and not has_ext(v0):
            if all(isinstance(u, T) for u in us):
                ds = [u.args[1] if u.op == "add" and u.args[0] is kind[1] else
                      (u.args[0] if u.op == "add" and u.args[1] is kind[1] else None) for u in us]
                if ds[0] is not None and all(d is ds[0] for d in ds) and not (varset(ds[0]) & hv) \
                        and self.n not in varset(ds[0]) and not any(self.is_body_var(v, f0) for v in varset(ds[0])):
                    return ("affine", ds[0])
        u = self.merged(us, conds)
        if not self.mentions(u, hv, f0):
            # value computed by the previous iteration
            try:
                e0 = self.at(u, ic(-1))
            except Exception:
                e0 = None
            return ("prev", u, e0 is not None and self.same(e0, v0))
        return None

    def mentions(self, u, hv, f0):
        if isinstance(u, Ptr):
            ts = [u.off]
        elif isinstance(u, Bits):
            ts = [u.v]
        elif isinstance(u, PIte):
            return True
        elif u is UNDEF or isinstance(u, Packed):
            return True
        else:
            ts = [u]
        for t in ts:
            for v in varset(t):
                if v in hv or self.is_body_var(v, f0):
                    if v is self.n:
                        continue
                    return True
        return False

    CANDS = (
        ("<=init", lambda x, x0: le(x, x0) if x.sort == "R" else ile(x, x0)),
        (">=init", lambda x, x0: le(x0, x) if x.sort == "R" else ile(x0, x)),
        (">=0", lambda x, x0: le(R0, x) if x.sort == "R" else ile(I0, x)),
        (">0", lambda x, x0: lt(R0, x) if x.sort == "R" else ilt(I0, x)),
    )

    def relations(self, backs):
        """Houdini: equalities between loop carried variables, also guarded by a flag"""
        self.rels = ()
        unified = False
        G = [k for k, kind in self.kinds.items() if kind[0] == "gen" and isinstance(self.vars[k], T)]
        if not backs or not G:
            return
        same = lambda a, b: (req if a.sort == "R" else ieq if a.sort == "I" else iff)(a, b)
        cands = []
        plain = {}
        for i, a in enumerate(G):
            if self.vars[a].sort == "I" and self.vars[a] in (I0, I1):
                cands.append(lambda e, a=a: bor(ieq(e(a), I0), ieq(e(a), I1)))
            for b in G[i + 1:]:
                if self.vars[a].sort == self.vars[b].sort and (self.vars[a].op != "num" or len(G) <= 24) and (
                        self.vars[a] is self.vars[b] or self.valid(self.s, same(self.vars[a], self.vars[b]))):
                    f = lambda e, a=a, b=b: same(e(a), e(b))
                    plain[f] = (a, b)
                    cands.append(f)
        flags = [k for k in G if self.vars[k] is I0 or self.vars[k] is FALSE]
        for a in G:
            if str(self.vars[a].args[0] if self.vars[a].op == "var" else "").startswith("undef"):
                for b in G:
                    if b != a and self.vars[b].sort == self.vars[a].sort:
                        for c in flags:
                            if c not in (a, b):
                                cands.append(lambda e, a=a, b=b, c=c: bor(
                                    ieq(e(c), I0) if self.vars[c].sort == "I" else bnot(e(c)), same(e(a), e(b))))
        # the entry condition holds again at every iteration
        byinit = {}
        for k in sorted(self.vars, key=lambda k: (self.kinds[k][0] != "gen", str(k))):
            v = self.vars[k]
            if isinstance(v, T) and v.op == "var" and self.kinds[k][0] in ("gen", "affine", "prev"):
                byinit.setdefault(v, k)
        if byinit:
            for lit in self.s.pc[-80:] if isinstance(self.s.pc, (list, tuple)) else list(self.s.pc):
                vs = [v for v in varset(lit) if v in byinit]
                if vs:
                    cands.append(lambda e, lit=lit, vs=vs: subst(lit, {v: e(byinit[v]) for v in vs}))
        if not cands or len(cands) > 300:
            return
        cur = lambda k: self.value(k, self.n)
        good = list(cands)
        for i, b in enumerate(backs):
            u = lambda k: self.updates[k][i]
            for c in list(good):
                try:
                    c(u)
                except Exception:
                    good.remove(c)
        changed = True
        while changed and good:
            changed = False
            facts = [c(cur) for c in good] + self.invfacts(self.n)
            for c in list(good):
                for i, b in enumerate(backs):
                    g = c(lambda k: self.updates[k][i])
                    if g is TRUE:
                        continue
                    if solve.feasible(tuple(b[1].pc) + tuple(facts), (bnot(g),), 2000):
                        good.remove(c)
                        changed = True
                        break
        self.rels = tuple(c for c in good if c not in plain)
        for c in good:
            if c in plain:
                a, b = plain[c]
                while self.kinds[a][0] == "eq":
                    a = self.kinds[a][1]
                if self.kinds[b][0] == "gen" and a != b:
                    self.kinds[b] = ("eq", a)
                    unified = True
        if DEBUG:
            print("relations", self.header, [(k, show(self.vars[k], 3)) for k in G], "cands", len(cands), "kept",
                  [show(c(lambda k: self.value(k, self.n)), 4) for c in good], file=sys.stderr)
        return unified

    def invariants(self, st, backs):
        """Houdini: keep the candidate invariants that are inductive"""
        E = self.E
        gens = [k for k, kind in self.kinds.items() if kind[0] == "gen" and isinstance(self.vars[k], T)
                and self.vars[k].sort in ("R", "I")]
        self.mono = {}
        if not backs or not gens:
            return

        def holds(pc, g, budget):
            if not solve.feasible(tuple(pc), (bnot(g),), 1500):
                return True
            return len(backs) <= 8 and solve.Prover(budget).prove(list(pc), g, False).status == "proved"
        # monotonicity
        for k in gens:
            h = self.kinds[k][1]
            for nm, f in (("dec", lambda u: le(u, h) if u.sort == "R" else ile(u, h)),
                          ("inc", lambda u: le(h, u) if u.sort == "R" else ile(h, u))):
                good = True
                for b, u in zip(backs, self.updates[k]):
                    if not isinstance(u, T) or u.sort != self.vars[k].sort:
                        good = False
                        break
                    g = f(u)
                    if g is TRUE:
                        continue
                    if not holds(b[1].pc, g, 3.0):
                        good = False
                        break
                if good:
                    self.mono.setdefault(k, set()).add(nm)
        cand = {}
        for k in gens:
            cs = []
            for nm, f in self.CANDS:
                if nm == "<=init" and "dec" in self.mono.get(k, ()):
                    cs.append((nm, f))
                    continue
                if nm == ">=init" and "inc" in self.mono.get(k, ()):
                    cs.append((nm, f))
                    continue
                if nm in ("<=init", ">=init"):
                    continue
                g = f(self.vars[k], self.vars[k])
                if g is TRUE or holds(self.s.pc, g, 1.0):
                    cs.append((nm, f))
            cand[k] = cs
        changed = True
        while changed:
            changed = False
            facts = [f(self.kinds[k][1], self.vars[k]) for k in gens for nm, f in cand[k]]
            for k in gens:
                for c in list(cand[k]):
                    nm, f = c
                    if nm in ("<=init", ">=init"):
                        continue
                    for b, u in zip(backs, self.updates[k]):
                        if not isinstance(u, T):
                            cand[k].remove(c)
                            changed = True
                            break
                        g = f(u, self.vars[k])
                        if g is TRUE:
                            continue
                        if not holds(list(b[1].pc) + facts, g, 2.0):
                            cand[k].remove(c)
                            changed = True
                            break
        for k in gens:
            kind = self.kinds[k]
            self.kinds[k] = ("gen", kind[1], tuple(cand[k]))

    def exit_facts(self, x, st, backs, N, rename):
        """what the exit state knows about the general variables"""
        E = self.E
        gens = [k for k, kind in self.kinds.items() if kind[0] == "gen" and isinstance(self.vars[k], T)]
        if not gens or not backs:
            return
        n = self.n
        f = lambda t: subst(t, rename)
        body = []
        conds = [band(*self.pathcond(b[1], st)) for b in backs]
        body.append(bor(*conds))
        last = {}
        for k in gens:
            us = self.updates[k]
            if not all(isinstance(u, T) and u.sort == self.vars[k].sort for u in us):
                continue
            h = self.kinds[k][1]
            hN = f(h)
            u = self.merged(us, conds)
            for d in self.mono.get(k, ()):
                if self.vars[k].sort == "R":
                    body.append(le(hN, u) if d == "dec" else le(u, hN))
                else:
                    body.append(ile(hN, u) if d == "dec" else ile(u, hN))
            last[k] = (hN, u, h)
        invs = [g(self.kinds[k][1], self.vars[k]) for k in gens for nm, g in self.kinds[k][2]]
        ex = set()
        for t in body + invs:
            for v in varset(t):
                if v in self.hvars() or (self.is_body_var(v, 10**15)):
                    ex.add(v)
        # variables created while executing the body
        exv = set(self.hvars())
        base_vars = set()
        for c in self.s.pc:
            base_vars |= varset(c)
        for b in backs:
            for c in self.pathcond(b[1], st):
                for v in varset(c):
                    if "!" in str(v.args[0]) and v not in base_vars and v is not n:
                        exv.add(v)
        quants = ()
        if len(backs) == 1:
            quants = tuple(q for q in backs[0][1].quants if q not in self.s.quants)
        body = body + invs
        keep = [v for t in body for v in varset(t)]
        exv = frozenset(v for v in exv if v not in rename.values())
        q = Quant(n, band(ile(I0, n), ilt(n, N)), exv, band(*body), quants)
        x.quants = x.quants + (q,)
        # the last iteration that changed the variable
        for k, (hN, u, h) in last.items():
            m = fresh("I", "w")
            ren = {v: fresh(v.sort, "w") for v in exv}
            ren[n] = m
            memo = {}
            g = lambda t: subst(t, ren, memo)
            same = (req if self.vars[k].sort == "R" else ieq if self.vars[k].sort == "I" else iff)
            x.assume(bor(same(hN, self.vars[k]),
                         band(ile(I0, m), ilt(m, N), same(hN, g(u)), bnot(same(g(u), g(h))), g(band(*body)))))
