#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the definitions in tools/meta/*.py"""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
for f in sorted(glob.glob(V + "/tools/meta/*.py")):
    ns = {}
    exec(open(f, encoding="utf-8").read(), ns)
    P += ns["P"]
P.sort(key=lambda p: p["id"])
with open(V + "/properties.jsonl", "w", encoding="utf-8") as o:
    for p in P:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p.get("observe", []), "hook_needed": None}
        if p.get("state"):
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        o.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]},
                            "why_tests_cant": p["why"], "anchors": a}, ensure_ascii=False) + "\n")
        assert len(p["title"]) <= 80, p["id"]
m = {"version": 1, "setup_cmd": "python3 lib/build_alusus.py",
     "checks": [{"property": p["id"], "quick_cmd": "python3-vt lib/check.py " + p["id"], "thorough_cmd": "python3-vt lib/check.py " + p["id"],
                 "technique": p["technique"], "level": p.get("level", "proof"), "level_note": p["note"]} for p in P if "na" not in p],
     "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if "na" in p],
     "notes": "One runner (lib/check.py) for every property; see DESIGN.md. Known and fixed findings: known_findings.txt."}
json.dump(m, open(V + "/MANIFEST.json", "w", encoding="utf-8"), indent=1, ensure_ascii=False)
print(len(P), "properties,", len(m["checks"]), "checks")
