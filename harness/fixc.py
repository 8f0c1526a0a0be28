"""fixc.py PROPERTY "commit title (without fix:)" "what failed": commit /repo's working tree as a fix and record it."""
import json, subprocess, sys
prop, title, what = sys.argv[1:4]
subprocess.check_call(["git", "-C", "/repo", "add", "-u"])
subprocess.check_call(["git", "-C", "/repo", "commit", "-qm", "fix: " + title])
h = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "--short", "HEAD"], text=True).strip()
p = "/verif/known_findings.json"
try:
    d = json.load(open(p))
except FileNotFoundError:
    d = {"findings": [], "fixed": []}
d["fixed"].append(f"fixed: property={prop} {h} {what}")
json.dump(d, open(p, "w"), indent=1)
print(h)
