#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand when the table changes)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contract-based deductive verification of the real headers: verification conditions generated by symbolic execution of /repo's own C++ code (double replaced by a symbolic real), every postcondition discharged by polynomial normalisation or z3"
H = "core/include/humoto/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, claimed=True, level="other", note="", reason="", observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, claimed=claimed, level=level, note=note, reason=reason, observe=observe))
exec(open(os.path.join(V, "tools", "table.py")).read())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}
        if p["observe"]:
            a["observe_at"] = p["observe"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]},
                            "why_tests_cant": p["why"], "anchors": a}) + "\n")
        assert len(p["title"]) <= 80, p["id"]
B = json.load(open(os.path.join(V, "contracts", "assumptions.json")))["bounds"]
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": [], "notes": "every check compiles its contract files against /repo's working tree on every run; see DESIGN.md"}
for p in P:
    if p["claimed"]:
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 run.py %s quick" % p["id"], "thorough_cmd": "python3 run.py %s thorough" % p["id"],
                            "evidence_file": "evidence/%s.json" % p["id"], "technique": TECH, "level": p["level"], "level_note": (p["note"] + (B.get(p["id"], "") if p["note"] == DIM else "")).strip()})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": p["reason"]})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
