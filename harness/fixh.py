"""fixh.py PROP "title" "what failed" h1,h2,..: commit the given hunks (1-based, over `git diff`) of /repo as a fix."""
import json, subprocess, sys, re
prop, title, what, hs = sys.argv[1:5]
hs = set(map(int, hs.split(",")))
d = subprocess.check_output(["git", "-C", "/repo", "diff"], text=True).splitlines(True)
out, hdr, n, keep, pend = [], [], 0, False, []
for l in d:
    if l.startswith("diff --git"):
        pend = [l]; keep = False; inh = True; continue
    if l.startswith("@@"):
        inh = False
        n += 1; keep = n in hs
        if keep and pend: out += pend; pend = []
        if keep: out.append(l)
        continue
    if inh: pend.append(l)
    elif keep: out.append(l)
p = "".join(out)
subprocess.run(["git", "-C", "/repo", "apply", "--cached", "--recount", "-"], input=p, text=True, check=True)
subprocess.check_call(["git", "-C", "/repo", "commit", "-qm", "fix: " + title])
h = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "--short", "HEAD"], text=True).strip()
p = "/verif/known_findings.json"
k = json.load(open(p))
k["fixed"].append(f"fixed: property={prop} {h} {what}")
json.dump(k, open(p, "w"), indent=1)
print(h)
