"""Writes MANIFEST.json from the plan: every planned property is claimed, the others are listed as not applicable."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from plan import PLAN, NOT_APPLICABLE, LEVEL_NOTE, TECHNIQUE
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
checks, na = [], []
for p in ids:
    if p in PLAN:
        checks.append({"property": p, "quick_cmd": "python3 bin/check.py %s --tier quick" % p,
                       "thorough_cmd": "python3 bin/check.py %s --tier thorough" % p,
                       "technique": PLAN[p].get("technique", TECHNIQUE), "level": "model_checking",
                       "level_note": PLAN[p].get("note", LEVEL_NOTE), "evidence_file": "evidence/%s.json" % p})
    else:
        na.append({"property": p, "reason": NOT_APPLICABLE.get(p, "check not built yet")})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "bash bin/build.sh", "checks": checks, "not_applicable": na,
               "notes": "All checks: TLA+ specification in spec/, evaluated by TLC; see DESIGN.md."}, f, indent=1)
    f.write("\n")
