"""writes properties.jsonl and MANIFEST.json from the table below (run by hand; the outputs are committed)"""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, note=None, na=None, observe=None, tech=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  note=note, na=na, observe=observe, tech=tech))


exec(open(os.path.join(ROOT, "tools", "props_table.py")).read())

TECH = "symbolic execution of the current source + z3 (path-exhaustive, counterexamples replayed)"
NOTE = ("Every path of the real Python source within the bounds is executed on symbolic inputs; z3 discharges the "
        "property on each path. Trusts CPython, z3, the symbolic value layer in symx/ (cross-checked on every path by "
        "a concrete run of the unpatched code against an independent oracle). ")
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
        if p["observe"]:
            d["anchors"]["observe_at"] = p["observe"]
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for p in P:
    if p["na"]:
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    assert os.path.exists(os.path.join(ROOT, "props", p["id"].lower() + ".py")), p["id"]
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"],
                   "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                   "technique": p["tech"] or TECH, "level": "other", "level_note": NOTE + (p["note"] or "")})
m = {"version": 1, "setup_cmd": "python3 tools/setup_check.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks load /repo's current source under a symbolic-aware import loader."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "checks")
