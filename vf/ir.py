"""Parser for the subset of textual LLVM IR (18, opaque pointers) the verifier reads."""
import re

TOK = re.compile(
    r'\s*(?:([%@]"(?:[^"\\]|\\.)*"|[%@][-a-zA-Z$._0-9]+)|(c"(?:[^"\\]|\\.)*")|("(?:[^"\\]|\\.)*")|'
    r'(0x[KLMHR]?[0-9A-Fa-f]+|-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+)|([a-zA-Z_$.][-a-zA-Z$._0-9]*)|(\.\.\.)|([#!][0-9a-zA-Z_.]*)|(.))')


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            break
        pos = m.end()
        t = m.group(m.lastindex)
        if t == ";" :
            break
        out.append(t)
    return out


class Ty(object):
    __slots__ = ("k", "n", "elts", "size", "align", "offs", "name")

    def __init__(self, k, n=0, elts=()):
        self.k, self.n, self.elts = k, n, elts
        self.size = self.align = self.offs = None

    def __repr__(self):
        if self.k == "i":
            return "i%d" % self.n
        if self.k in ("arr", "vec"):
            return "[%d x %r]" % (self.n, self.elts[0])
        if self.k in ("struct", "packed"):
            return "{%s}" % ", ".join(map(repr, self.elts))
        return self.k


PTR = Ty("ptr")
VOID = Ty("void")
DOUBLE = Ty("double")
FLOAT = Ty("float")
FP80 = Ty("x86_fp80")
LABEL = Ty("label")
META = Ty("metadata")
TOKEN = Ty("token")
OPAQUE = Ty("opaque")
_ints = {}


def ity(n):
    if n not in _ints:
        _ints[n] = Ty("i", n)
    return _ints[n]


def layout(t):
    if t.size is not None:
        return
    k = t.k
    if k == "i":
        b = (t.n + 7) // 8
        p = 1
        while p < b:
            p *= 2
        t.size = p if t.n <= 64 else ((b + 15) // 16 * 16)
        t.align = min(p, 16)
    elif k in ("ptr", "double"):
        t.size = t.align = 8
    elif k == "float":
        t.size = t.align = 4
    elif k == "x86_fp80":
        t.size = t.align = 16
    elif k in ("arr", "vec"):
        e = t.elts[0]
        layout(e)
        t.size = t.n * e.size
        t.align = e.align if k == "arr" else t.size
    elif k in ("struct", "packed"):
        off, al, offs = 0, 1, []
        for e in t.elts:
            layout(e)
            a = 1 if k == "packed" else e.align
            off = (off + a - 1) // a * a
            offs.append(off)
            off += e.size
            al = max(al, a)
        t.size = (off + al - 1) // al * al
        t.align = al
        t.offs = offs
    else:
        t.size, t.align = 0, 1


ATTR_WORDS = set(
    """noundef nonnull signext zeroext inreg noalias nocapture readonly readnone writeonly returned
immarg nest swiftself swifterror nofree noreturn nounwind mustprogress dso_local local_unnamed_addr
unnamed_addr internal private linkonce_odr weak_odr external weak linkonce common hidden protected
default dso_preemptable fastcc ccc coldcc tail notail musttail nnan ninf nsz arcp contract afn reassoc fast
extern_weak available_externally writable dead_on_unwind nuw nsw exact inbounds disjoint nneg
volatile inalloca""".split()
)
ATTR_PAREN = set(
    "dereferenceable dereferenceable_or_null sret byval byref preallocated elementtype memory allocsize captures range nofpclass alignstack".split()
)


class P(object):
    """token cursor"""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.m = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        x = self.next()
        if x != s:
            raise SyntaxError("expected %r got %r in %s" % (s, x, " ".join(self.t)))

    def skip_attrs(self):
        while True:
            x = self.peek()
            if x in ATTR_WORDS:
                self.i += 1
            elif x in ATTR_PAREN:
                self.i += 1
                if self.peek() == "(":
                    d = 0
                    while True:
                        y = self.next()
                        if y == "(":
                            d += 1
                        elif y == ")":
                            d -= 1
                            if d == 0:
                                break
            elif x == "align":
                self.i += 1
                if self.accept("("):
                    self.next()
                    self.expect(")")
                else:
                    self.next()
            elif x == "cc":
                self.i += 2
            elif x is not None and x.startswith("#"):
                self.i += 1
            else:
                return

    def type(self):
        x = self.next()
        if x == "ptr":
            t = PTR
        elif x == "double":
            t = DOUBLE
        elif x == "float":
            t = FLOAT
        elif x == "x86_fp80":
            t = FP80
        elif x == "void":
            t = VOID
        elif x == "label":
            t = LABEL
        elif x == "metadata":
            t = META
        elif x == "token":
            t = TOKEN
        elif x == "opaque":
            t = OPAQUE
        elif x[0] == "i" and x[1:].isdigit():
            t = ity(int(x[1:]))
        elif x == "[":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect("]")
            t = Ty("arr", n, (e,))
        elif x == "{":
            es = []
            if not self.accept("}"):
                while True:
                    es.append(self.type())
                    if self.accept("}"):
                        break
                    self.expect(",")
            t = Ty("struct", 0, tuple(es))
        elif x == "<":
            if self.accept("{"):
                es = []
                if not self.accept("}"):
                    while True:
                        es.append(self.type())
                        if self.accept("}"):
                            break
                        self.expect(",")
                self.expect(">")
                t = Ty("packed", 0, tuple(es))
            else:
                n = int(self.next())
                self.expect("x")
                e = self.type()
                self.expect(">")
                t = Ty("vec", n, (e,))
        elif x[0] == "%":
            t = self.m.named(x)
        else:
            raise SyntaxError("type? %r in %s" % (x, " ".join(self.t)))
        # function type
        if self.peek() == "(" and t.k != "label":
            # only in call/const contexts: `void (i8, ...)`
            save = self.i
            try:
                self.i += 1
                if not self.accept(")"):
                    while True:
                        if self.accept("..."):
                            self.expect(")")
                            break
                        self.type()
                        if self.accept(")"):
                            break
                        self.expect(",")
                return Ty("fn", 0, (t,))
            except SyntaxError:
                self.i = save
        return t

    # value: ('l', name) local, ('g', name) global, ('c', python) constants ...
    def value(self, ty):
        x = self.next()
        c = x[0]
        if c == "%":
            return ("l", x)
        if c == "@":
            return ("g", x)
        if ty.k == "double" or ty.k == "float" or ty.k == "x86_fp80":
            if x.startswith("0x"):
                if x[2] in "KLMHR":
                    return ("f80", x)
                import struct
                return ("f", struct.unpack("<d", struct.pack("<Q", int(x, 16)))[0])
            if x not in ("undef", "poison", "zeroinitializer"):
                return ("f", float(x))
        if c.isdigit() or c == "-":
            return ("i", int(x))
        if x == "true":
            return ("i", 1)
        if x == "false":
            return ("i", 0)
        if x == "null":
            return ("null",)
        if x in ("undef", "poison"):
            return ("undef", ty)
        if x == "zeroinitializer":
            return ("zero", ty)
        if x == "none":
            return ("null",)
        if c == "c" and x[1:2] == '"':
            return ("str", unescape(x[2:-1]))
        if x in ("[", "{", "<"):
            if x == "<" and self.peek() == "{":
                self.next()
                close = ["}", ">"]
            else:
                close = [{"[": "]", "{": "}", "<": ">"}[x]]
            es = []
            if self.peek() != close[0]:
                while True:
                    t = self.type()
                    es.append((t, self.value(t)))
                    if not self.accept(","):
                        break
            for k in close:
                self.expect(k)
            return ("agg", es)
        if x == "getelementptr":
            self.skip_attrs()
            self.skip_inrange()
            self.expect("(")
            st = self.type()
            ops = []
            while self.accept(","):
                self.skip_inrange()
                t = self.type()
                ops.append((t, self.value(t)))
            self.expect(")")
            return ("gep", st, ops)
        if x in ("inttoptr", "ptrtoint", "bitcast", "trunc", "addrspacecast", "zext", "sext"):
            self.expect("(")
            t = self.type()
            v = self.value(t)
            self.expect("to")
            t2 = self.type()
            self.expect(")")
            return ("cast", x, t, v, t2)
        if x in ("sub", "add", "mul"):
            self.skip_attrs()
            self.expect("(")
            t = self.type()
            a = self.value(t)
            self.expect(",")
            t = self.type()
            b = self.value(t)
            self.expect(")")
            return ("cbin", x, t, a, b)
        if x == "dso_local_equivalent" or x == "no_cfi":
            return ("g", self.next())
        if x == "blockaddress":
            raise SyntaxError("blockaddress")
        raise SyntaxError("value? %r in %s" % (x, " ".join(self.t)))

    def skip_inrange(self):
        if self.accept("inrange"):
            if self.accept("("):
                while self.next() != ")":
                    pass

    def tv(self):
        t = self.type()
        self.skip_attrs()
        return t, self.value(t)


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Instr(object):
    __slots__ = ("op", "res", "ty", "a", "text")

    def __init__(self, op, res, ty, a, text):
        self.op, self.res, self.ty, self.a, self.text = op, res, ty, a, text

    def __repr__(self):
        return self.text


class Fn(object):
    def __init__(self, name):
        self.name = name
        self.params = []
        self.blocks = {}
        self.entry = None
        self.lines = None
        self._loops = None

    def loops(self):
        if self._loops is None:
            self._loops = find_loops(self)
        return self._loops


class Module(object):
    def __init__(self, text):
        self.types = {}
        self.tydefs = {}
        self.globals = {}  # name -> (type, initvalue or None, const)
        self.fns = {}
        self.decls = {}
        self.aliases = {}
        self._raw = {}
        lines = text.split("\n")
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith("define "):
                j = i
                while lines[j] != "}":
                    j += 1
                self._define(l, lines[i + 1:j])
                i = j + 1
                continue
            if l.startswith("declare "):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', l)
                self.decls["@" + m.group(1)] = l
            elif l.startswith("%") and " = type " in l:
                name, rest = l.split(" = type ", 1)
                self.tydefs[name] = rest
            elif l.startswith("@"):
                self._global(l)
            i += 1

    def named(self, n):
        t = self.types.get(n)
        if t is None:
            t = Ty("struct", 0, ())
            self.types[n] = t
            d = self.tydefs.get(n)
            if d is None or d.strip() == "opaque":
                t.k = "opaque"
            else:
                u = P(tokenize(d), self).type()
                t.k, t.n, t.elts = u.k, u.n, u.elts
        return t

    def _global(self, l):
        toks = tokenize(l)
        name = toks[0]
        self._raw[name] = toks

    def glob(self, name):
        g = self.globals.get(name)
        if g is not None:
            return g
        toks = self._raw.get(name)
        if toks is None:
            return None
        p = P(toks, self)
        p.next()
        p.expect("=")
        const = False
        ext = False
        alias = False
        while True:
            x = p.next()
            if x == "constant":
                const = True
                break
            if x == "global":
                break
            if x == "alias":
                alias = True
                break
            if x in ("external", "extern_weak", "available_externally"):
                ext = x != "available_externally"
            if x in ("thread_local", "addrspace", "comdat") and p.peek() == "(":
                while p.next() != ")":
                    pass
        ty = p.type()
        init = None
        if alias:
            p.accept(",")
            t, v = p.tv()
            g = ("alias", v)
        else:
            if not ext:
                init = p.value(ty)
            g = (ty, init, const)
        self.globals[name] = g
        return g

    def _define(self, header, body):
        m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', header)
        name = "@" + m.group(1)
        f = Fn(name)
        f.header = header
        f.paramtext = header[m.end():]
        f.lines = body
        self.fns[name] = f

    def fn(self, name):
        f = self.fns.get(name)
        if f is None:
            return None
        if f.entry is None:
            self._parse_fn(f)
        return f

    def _parse_fn(self, f):
        p = P(tokenize(f.paramtext), self)
        n = 0
        f.varargs = False
        if not p.accept(")"):
            while True:
                if p.accept("..."):
                    f.varargs = True
                    p.expect(")")
                    break
                t = p.type()
                byval = "byval" in p.t[p.i:p.i + 1]
                # look for byval among the attributes
                save = p.i
                p.skip_attrs()
                byval = "byval" in p.t[save:p.i]
                x = p.peek()
                if x and x[0] == "%":
                    nm = p.next()
                else:
                    nm = "%%%d" % n
                n += 1
                f.params.append((t, nm, byval))
                if p.accept(")"):
                    break
                p.expect(",")
        # blocks
        cur = None
        label = None
        lines = f.lines
        i = 0
        # implicit entry label: number = count of unnamed params
        unnamed = sum(1 for (t, nm, b) in f.params if re.match(r"%\d+$", nm))
        while i < len(lines):
            l = lines[i]
            i += 1
            if not l.strip() or l.lstrip().startswith(";"):
                continue
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', l)
            if m:
                label = "%" + m.group(1)
                cur = []
                f.blocks[label] = cur
                if f.entry is None:
                    f.entry = label
                continue
            if cur is None:
                label = "%%%d" % unnamed
                cur = []
                f.blocks[label] = cur
                f.entry = label
            s = l
            st = l.strip()
            if re.search(r"\bswitch\b", st) and st.endswith("["):
                while not lines[i].strip().endswith("]"):
                    s += " " + lines[i].strip()
                    i += 1
                s += " " + lines[i].strip()
                i += 1
            else:
                while i < len(lines) and lines[i].startswith("      "):
                    s += " " + lines[i].strip()
                    i += 1
            cur.append(self._instr(s.strip()))
        f.preds = {b: [] for b in f.blocks}
        f.succs = {}
        for b, ins in f.blocks.items():
            ss = succs(ins[-1])
            f.succs[b] = ss
            for s in ss:
                if b not in f.preds[s]:
                    f.preds[s].append(b)

    def _instr(self, s):
        toks = tokenize(s)
        # strip trailing metadata  , !tbaa !5
        for k, t in enumerate(toks):
            if t.startswith("!") and k > 0 and toks[k - 1] == ",":
                toks = toks[:k - 1]
                break
        p = P(toks, self)
        res = None
        if p.peek(1) == "=":
            res = p.next()
            p.next()
        p.skip_attrs()
        op = p.next()
        I = lambda op, ty, *a: Instr(op, res, ty, a, s)
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem", "add", "sub", "mul", "sdiv", "udiv",
                  "srem", "urem", "and", "or", "xor", "shl", "lshr", "ashr"):
            p.skip_attrs()
            t = p.type()
            a = p.value(t)
            p.expect(",")
            b = p.value(t)
            return I(op, t, a, b)
        if op == "fneg":
            p.skip_attrs()
            t = p.type()
            return I(op, t, p.value(t))
        if op in ("icmp", "fcmp"):
            p.skip_attrs()
            pred = p.next()
            t = p.type()
            a = p.value(t)
            p.expect(",")
            b = p.value(t)
            return I(op, t, pred, a, b)
        if op == "select":
            p.skip_attrs()
            ct, c = p.tv()
            p.expect(",")
            t, a = p.tv()
            p.expect(",")
            t2, b = p.tv()
            return I(op, t, ct, c, a, b)
        if op == "load":
            p.skip_attrs()
            if p.accept("atomic"):
                p.skip_attrs()
            t = p.type()
            p.expect(",")
            pt, v = p.tv()
            return I(op, t, v)
        if op == "store":
            p.skip_attrs()
            if p.accept("atomic"):
                p.skip_attrs()
            t, v = p.tv()
            p.expect(",")
            pt, q = p.tv()
            return I(op, t, v, q)
        if op == "getelementptr":
            p.skip_attrs()
            st = p.type()
            ops = []
            while p.accept(","):
                ops.append(p.tv())
            return I(op, PTR, st, ops)
        if op == "alloca":
            p.skip_attrs()
            t = p.type()
            n = None
            if p.accept(",") and p.peek() != "align":
                n = p.tv()
            return I(op, PTR, t, n)
        if op == "phi":
            p.skip_attrs()
            t = p.type()
            inc = []
            while True:
                p.expect("[")
                v = p.value(t)
                p.expect(",")
                lab = p.next()
                p.expect("]")
                inc.append((v, lab))
                if not p.accept(","):
                    break
            return I(op, t, dict((l, v) for v, l in inc))
        if op == "br":
            if p.peek() == "label":
                p.next()
                return I(op, VOID, None, p.next())
            t = p.type()
            c = p.value(t)
            p.expect(",")
            p.expect("label")
            a = p.next()
            p.expect(",")
            p.expect("label")
            b = p.next()
            return I(op, VOID, c, a, b)
        if op == "switch":
            t, v = p.tv()
            p.expect(",")
            p.expect("label")
            d = p.next()
            p.expect("[")
            cases = []
            while not p.accept("]"):
                ct = p.type()
                cv = p.value(ct)
                p.expect(",")
                p.expect("label")
                cases.append((cv[1], p.next()))
            return I(op, t, v, d, cases)
        if op == "ret":
            t = p.type()
            if t.k == "void":
                return I(op, t, None)
            return I(op, t, p.value(t))
        if op in ("call", "invoke"):
            p.skip_attrs()
            t = p.type()
            if t.k == "fn":
                t = t.elts[0]
            p.skip_attrs()
            if p.peek() == "asm":
                return I("asm", t)
            callee = p.value(PTR)
            p.expect("(")
            args = []
            if not p.accept(")"):
                while True:
                    at = p.type()
                    if at.k == "metadata":
                        # skip to , or )
                        d = 0
                        while True:
                            x = p.peek()
                            if x in ("(", "{"):
                                d += 1
                            if x in (")", "}") and d > 0:
                                d -= 1
                            elif d == 0 and x in (",", ")"):
                                break
                            p.next()
                        args.append((at, ("null",)))
                    else:
                        save = p.i
                        p.skip_attrs()
                        args.append((at, p.value(at)))
                    if p.accept(")"):
                        break
                    p.expect(",")
            if op == "invoke":
                while p.peek() != "to":
                    p.next()
                p.expect("to")
                p.expect("label")
                a = p.next()
                p.expect("unwind")
                p.expect("label")
                b = p.next()
                return I(op, t, callee, args, a, b)
            return I(op, t, callee, args)
        if op in ("zext", "sext", "trunc", "fptosi", "fptoui", "sitofp", "uitofp", "ptrtoint",
                  "inttoptr", "bitcast", "fpext", "fptrunc", "addrspacecast"):
            p.skip_attrs()
            t, v = p.tv()
            p.expect("to")
            t2 = p.type()
            return I(op, t2, t, v)
        if op == "extractvalue":
            t, v = p.tv()
            idx = []
            while p.accept(","):
                idx.append(int(p.next()))
            return I(op, t, v, idx)
        if op == "insertvalue":
            t, v = p.tv()
            p.expect(",")
            t2, w = p.tv()
            idx = []
            while p.accept(","):
                idx.append(int(p.next()))
            return I(op, t, v, t2, w, idx)
        if op == "extractelement":
            t, v = p.tv()
            p.expect(",")
            t2, i = p.tv()
            return I(op, t, v, i)
        if op == "insertelement":
            t, v = p.tv()
            p.expect(",")
            t2, w = p.tv()
            p.expect(",")
            t3, i = p.tv()
            return I(op, t, v, w, i)
        if op == "shufflevector":
            t, v = p.tv()
            p.expect(",")
            t, w = p.tv()
            p.expect(",")
            t3 = p.type()
            m = p.value(t3)
            return I(op, t, v, w, t3, m)
        if op == "freeze":
            t, v = p.tv()
            return I(op, t, v)
        if op in ("landingpad", "resume", "unreachable", "fence", "cmpxchg", "atomicrmw", "va_arg",
                  "cleanupret", "catchret"):
            if op == "resume":
                t, v = p.tv()
                return I(op, t, v)
            if op in ("atomicrmw",):
                p.skip_attrs()
                kind = p.next()
                pt, q = p.tv()
                p.expect(",")
                t, v = p.tv()
                return I(op, t, kind, q, v)
            if op == "cmpxchg":
                p.skip_attrs()
                p.accept("weak")
                p.skip_attrs()
                pt, q = p.tv()
                p.expect(",")
                t, c = p.tv()
                p.expect(",")
                t, n = p.tv()
                return I(op, t, q, c, n)
            if op == "landingpad":
                return I(op, p.type())
            return I(op, VOID)
        raise SyntaxError("instruction %s" % s)


def succs(ins):
    if ins.op == "br":
        return [ins.a[1]] if ins.a[0] is None else [ins.a[1], ins.a[2]]
    if ins.op == "switch":
        return list(dict.fromkeys([ins.a[1]] + [l for _, l in ins.a[2]]))
    if ins.op == "invoke":
        return [ins.a[2], ins.a[3]]
    return []


def find_loops(f):
    """header label -> set of blocks of the natural loop (merged per header)"""
    order, seen = [], set()
    stack = [(f.entry, iter(f.succs[f.entry]))]
    seen.add(f.entry)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(f.succs[s])))
                break
        else:
            order.append(b)
            stack.pop()
    rpo = order[::-1]
    idx = {b: i for i, b in enumerate(rpo)}
    idom = {f.entry: f.entry}
    changed = True
    while changed:
        changed = False
        for b in rpo[1:]:
            new = None
            for p in f.preds[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while idx[x] > idx[y]:
                                x = idom[x]
                            while idx[y] > idx[x]:
                                y = idom[y]
                        new = x
            if new is not None and idom.get(b) != new:
                idom[b] = new
                changed = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == f.entry:
                return False
            b = idom[b]

    loops = {}
    for b in rpo:
        for s in f.succs[b]:
            if s in idx and dom(s, b):
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x in body:
                        continue
                    body.add(x)
                    st.extend(q for q in f.preds[x] if q in idx)
    # blocks that only report a failed assertion belong to the loops they are reached from
    dead = [b for b in rpo if not f.succs[b] and any(i.op == "call" and "@__assert_fail" in i.text for i in f.blocks[b])]
    for body in loops.values():
        for b in dead:
            if b not in body and any(q in body for q in f.preds[b]):
                body.add(b)
    return loops
