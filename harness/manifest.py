"""Regenerate MANIFEST.json from the checks present."""
import json, os
V = "/verif"
NOTES = json.load(open(os.path.join(V, "harness", "levels.json")))
checks = []
for pid in sorted(NOTES):
    if os.path.exists(os.path.join(V, "checks", pid + ".py")):
        checks.append(dict(property=pid, quick_cmd=f"bash harness/run.sh {pid}", thorough_cmd=f"env VERIF_TIER=thorough bash harness/run.sh {pid}",
                           technique=NOTES[pid]["technique"], level="model_checking", level_note=NOTES[pid]["note"]))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = [dict(property=p, reason="check not built yet") for p in props if p not in {c["property"] for c in checks}]
json.dump(dict(version=1, setup_cmd="bash harness/setup.sh", checks=checks, not_applicable=na,
               notes="No hooks in /repo: public attributes and return values expose the abstract state."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
