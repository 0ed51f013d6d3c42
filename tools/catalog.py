"""writes properties.jsonl and MANIFEST.json from the list below (python3 tools/catalog.py)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ("Deductive proof over mathematical reals/integers on the LLVM IR clang makes of the real sources: rounding, wrap-around "
        "and aliasing of distinct arrays are not modelled; the verifier, clang/opt and z3 are trusted. ")
TECH = "contract-based deductive verification of the real code (symbolic execution of its LLVM IR with synthesised loop invariants; ring normaliser and z3 discharge every obligation)"
P = []


def prop(id, title, statement, over, text, why, files, mech, note=None, na=None, tech=None, **kw):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  note=note, na=na, tech=tech))


exec(open(os.path.join(V, "tools", "catalog_data.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
man = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
       "notes": "./check <ID> verifies one property; specs/<ID>_*.cpp are its contracts, vf/ is the verifier; see DESIGN.md. No hooks are needed in /repo."}
for p in P:
    if p["na"]:
        man["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        man["checks"].append({
            "property": p["id"], "quick_cmd": "./check " + p["id"],
            "thorough_cmd": "VERIF_TIER=thorough ./check " + p["id"],
            "evidence_file": "evidence/%s.json" % p["id"], "technique": p["tech"] or TECH, "level": "proof",
            "level_note": NOTE + (p["note"] or "")})
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(man["checks"]), "checks", len(man["not_applicable"]), "not applicable")
