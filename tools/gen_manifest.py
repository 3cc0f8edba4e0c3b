"""Writes /verif/MANIFEST.json from the table of implemented checks below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
CLAIMED = {}   # id -> (technique, level_note)
exec(open(os.path.join(ROOT, "tools", "claims.py")).read())
NA = {
 "P90": "Quantifies over the sampling distribution of data and learners; no fact about the source code bounds coverage.",
 "P91": "Convergence of scipy's root search depends on the shape of data-dependent functions; no static argument in reach bounds it (the structural part, which function is searched and what is returned, is covered under P04/P05).",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        t, note = CLAIMED[i]
        checks.append({"property": i, "quick_cmd": f"python3 -m dmlcheck {i}", "thorough_cmd": f"python3 -m dmlcheck {i} --thorough",
                       "technique": t, "level": "other", "level_note": note, "evidence_file": f"evidence/{i}.json"})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 -m dmlcheck --self-test", "checks": checks, "not_applicable": na,
     "notes": "All checks are static: dmlcheck parses /repo/doubleml on every run and never imports or runs it."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
