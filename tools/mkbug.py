#!/usr/bin/env python3
"""tools/mkbug.py FILE.bug...: write seeded/<id>/ from a description
   lines: id: / property: / needs: / breaks: / file: ; then blocks <<<< old ==== new >>>> and, after the line DEMO, demo.cpp"""
import sys, os, json, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for fn in sys.argv[1:]:
    txt = open(fn).read()
    head, demo = txt.split("\nDEMO\n", 1)
    meta, edits, cur = {}, [], None
    lines = head.split("\n")
    i = 0
    file = None
    while i < len(lines):
        l = lines[i]
        if l == "<<<<":
            j = lines.index("====", i); k = lines.index(">>>>", j)
            edits.append((file, "\n".join(lines[i + 1:j]), "\n".join(lines[j + 1:k])))
            i = k + 1
            continue
        if ": " in l:
            a, b = l.split(": ", 1)
            if a == "file": file = b.strip()
            else: meta[a] = b.strip()
        i += 1
    d = os.path.join(V, "seeded", meta["id"])
    os.makedirs(d, exist_ok=True)
    assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout
    try:
        for f, a, b in edits:
            p = "/repo/" + f
            s = open(p).read()
            n = s.count(a)
            if n != 1:
                raise SystemExit("%s: %s occurs %d times:\n%s" % (fn, f, n, a))
            open(p, "w").write(s.replace(a, b))
        open(os.path.join(d, "patch.diff"), "w").write(subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    json.dump({"property": meta["property"], "needs": meta["needs"], "what_it_breaks": meta["breaks"]}, open(os.path.join(d, "meta.json"), "w"))
    open(os.path.join(d, "demo.cpp"), "w").write(demo)
    shutil.copy(os.path.join(V, "tools", "demo.sh.in"), os.path.join(d, "demo.sh"))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    print("wrote", meta["id"])
