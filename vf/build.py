"""Compile a contract unit together with the real sources of /repo."""
import os
import re
import shutil
import subprocess
import glob
import hashlib
import threading

LLVM = "/usr/lib/llvm-18/bin/"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
INC = ["-I" + VERIF + "/vf/include", "-I" + REPO, "-I" + REPO + "/include", "-I" + REPO + "/_build/include",
       "-isystem", "/usr/lib/x86_64-linux-gnu/openmpi/include",
       "-isystem", "/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi", "-isystem", "/usr/include/eigen3"] + [x for p in sorted(glob.glob("/usr/include/python3.*")) for x in ("-isystem", p)]
CFLAGS = ["-std=c++17", "-DEIGEN_DONT_VECTORIZE", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-strict-aliasing",
          "-fno-math-errno", "-ffp-contract=off", "-fno-vectorize", "-w", "-DVF_VERIFY=1"]
OPT = ["-vectorize-loops=false", "-vectorize-slp=false", "-inline-threshold=10000", "-unroll-runtime=false",
       "-disable-loop-idiom-all", "-S"]


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode:
        raise BuildError(" ".join(cmd[:6]) + " ...\n" + p.stdout.decode(errors="replace")[-4000:])
    return p.stdout.decode(errors="replace")


def directives(path):
    d = {"sources": [], "stubs": [], "flags": [], "recursion": [], "opts": {}}
    for line in open(path):
        m = re.match(r"\s*//\s*vf:\s*(\w+)\s*=\s*(.*?)\s*$", line)
        if not m:
            continue
        k, v = m.groups()
        if k in ("sources", "stubs", "flags", "recursion"):
            d[k] += v.replace("${VERIF}", VERIF).split()
        else:
            d["opts"][k] = v
    return d


def compile_bc(src, out, flags):
    sh([LLVM + "clang++"] + CFLAGS + flags + INC + ["-I" + config(os.path.dirname(out))] + ["-emit-llvm", "-c", src, "-o", out])
    return out


def bc_name(src, flags, bdir):
    h = hashlib.sha1((src + " ".join(flags)).encode()).hexdigest()[:10]
    return os.path.join(bdir, os.path.basename(src).replace(".cpp", "") + "-" + h + ".bc")


def cut_recursion(bc, rules):
    """replace the calls of a recursive function of the real code by calls of its contract

    rule: <glob on the mangled name>:<contract function>.  Calls made by the contract file itself (vf_*) stay.
    """
    import fnmatch
    ll = bc[:-3] + ".rec.ll"
    sh([LLVM + "llvm-dis", bc, "-o", ll])
    text = open(ll).read().split("\n")
    defs = [m.group(1) for m in (DEF.match(l) for l in text if l.startswith("define")) if m]
    out = []
    cur = ""
    n = 0
    subs = []
    for rule in rules:
        pat, stub = rule.rsplit(":", 1)
        for d in defs:
            if fnmatch.fnmatchcase(d[1:].strip('"'), pat):
                subs.append((d, "@" + stub))
    for l in text:
        if l.startswith("define"):
            cur = DEF.match(l).group(1)
        elif not cur.startswith("@vf_"):
            for d, s in subs:
                if d + "(" in l and re.search(r"\b(call|invoke)\b", l):
                    l = l.replace(d + "(", s + "(")
                    n += 1
        out.append(l)
    if n < len(rules):
        raise BuildError("recursion rule without effect: %s" % (rules,))
    open(ll, "w").write("\n".join(out))
    sh([LLVM + "llvm-as", ll, "-o", bc])


def link(unit, parts, stubs, bdir, harnesses_only=None, recursion=()):
    base = os.path.join(bdir, unit)
    cmd = [LLVM + "llvm-link"] + parts
    for s in stubs:
        cmd.append("--override=" + s)
    sh(cmd + ["-o", base + ".all.bc"])
    if recursion:
        cut_recursion(base + ".all.bc", recursion)
    names = [l.split()[-1] for l in sh([LLVM + "llvm-nm", base + ".all.bc"]).splitlines()
             if " T vf_harness_" in l]
    api = ",".join(names)
    sh([LLVM + "opt", "-passes=internalize,globaldce,default<O2>,internalize,globaldce",
        "-internalize-public-api-list=" + api]
       + OPT + [base + ".all.bc", "-o", base + ".ll"])
    sh([LLVM + "opt", "-passes=internalize,globaldce", "-internalize-public-api-list=" + api, "-S",
        base + ".all.bc", "-o", base + ".pre.ll"])
    return base, [n[len("vf_harness_"):] for n in names]


LIBS = [l for l in ("/usr/lib/x86_64-linux-gnu/libmpi.so", "/usr/lib/x86_64-linux-gnu/libfmt.so",
                    "/usr/lib/x86_64-linux-gnu/libboost_container.so") if os.path.exists(l)]


def native(base, bdir):
    sh([LLVM + "clang++", "-O1", "-rdynamic", "-w", base + ".all.bc", os.path.join(bdir, "native.o"),
        "-Wl,--unresolved-symbols=ignore-all", "-o", base + ".exe", "-ldl"] + ["-Wl,--as-needed"] + LIBS)


def config(bdir):
    """the generated configuration header, in case /repo has not been configured here"""
    d = os.path.join(bdir, "cfg", "fub")
    os.makedirs(d, exist_ok=True)
    t = open(REPO + "/include/fub/config.hpp.in").read()
    t = re.sub(r"#cmakedefine (\w+) @\w+@", r"#define \1 8", t)
    t = t.replace("#cmakedefine FUB_WITH_SUNDIALS", "").replace("#cmakedefine", "#define")
    p = os.path.join(d, "config.hpp")
    if not os.path.exists(p):
        tmp = "%s.%d.%d" % (p, os.getpid(), threading.get_ident())
        open(tmp, "w").write(t)
        os.rename(tmp, p)
    return os.path.join(bdir, "cfg")


def native_rt(bdir):
    sh([LLVM + "clang++", "-std=c++17", "-O1", "-w", "-c", VERIF + "/vf/native.cpp", "-o",
        os.path.join(bdir, "native.o")])


DEF = re.compile(r'^define .*?(@(?:"[^"]*"|[\w.$]+))\(', re.M)


def reachable(pre_ll):
    """harness -> set of functions of the real code (mangled) reachable in the unoptimised module"""
    calls = {}
    cur = None
    for line in open(pre_ll):
        if line.startswith("define"):
            m = DEF.match(line)
            cur = m.group(1)
            calls[cur] = set()
        elif line.startswith("}"):
            cur = None
        elif cur is not None and "@" in line:
            for r in re.findall(r'@(?:"[^"]*"|[\w.$]+)', line):
                calls[cur].add(r)
    res = {}
    for h in calls:
        if not h.startswith("@vf_harness_"):
            continue
        seen = set()
        st = [h]
        while st:
            x = st.pop()
            if x in seen or x not in calls:
                continue
            seen.add(x)
            st.extend(calls[x])
        res[h[len("@vf_harness_"):]] = sorted(n[1:].strip('"') for n in seen if "3fub" in n)
    return res


def demangle(names):
    if not names:
        return []
    p = subprocess.run([LLVM + "llvm-cxxfilt"], input="\n".join(names).encode(), stdout=subprocess.PIPE)
    return p.stdout.decode().splitlines()
