"""Plant bugs: plant.py FILE.py [ids...] (development tool; no check uses it).

FILE.py defines BUGS, a list of dict(id, prop, edits=[(file, old, new)], needs, breaks, demo).
Each is confirmed in a scratch copy (tests still pass, demo passes without and fails with the
patch), kept under /verif/seeded/<id>, and the property's check is run against the copy.
"""
import json, os, re, shutil, subprocess, sys
V = "/verif"
W = "/tmp/plant/repo"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", MPLCONFIGDIR="/tmp/plant/mpl")
BASE = "e8f559b"


def sh(cmd, cwd=W, env=ENV, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def fresh():
    if os.path.isdir("/tmp/plant"):
        shutil.rmtree("/tmp/plant")
    os.makedirs("/tmp/plant")
    sh("cp -a /repo /tmp/plant/repo", cwd="/tmp")
    sh("git checkout -q -- . && git clean -fdq")


def tests():
    shutil.rmtree(W + "/test/tmp", ignore_errors=True)
    env = dict(ENV, PYTHONPATH=W)
    sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider --rootdir=%s --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --junitxml=/tmp/plant/r.xml ." % W, cwd=W + "/test", env=env)
    sh("/usr/bin/python3 /opt/vp/results.py /tmp/plant/o.json junit:/tmp/plant/r.xml", cwd="/tmp")

    def passed(x):
        for k in ("passed", "pass", "stable"):
            if isinstance(x, dict) and k in x:
                return set(x[k])
        return set(x)
    b, o = passed(json.load(open("/opt/vp/BASELINE.json"))), passed(json.load(open("/tmp/plant/o.json")))
    return sorted(b - o)


def original(patch):
    """Some changed line is a line of the original repository."""
    rc, out = sh("git diff -U0")
    f, ok = None, 0
    for line in out.splitlines():
        if line.startswith("--- a/"):
            f = line[6:]
        m = re.match(r"@@ -(\d+)(?:,(\d+))? ", line)
        if m and f:
            a, n = int(m.group(1)), int(m.group(2) or 1)
            if n:
                _, bl = sh(f"git blame -s -L {a},{a+n-1} HEAD -- {f}")
                own = [x for x in bl.splitlines() if not x.startswith("^" + BASE) and not x.startswith(BASE)]
                ok += n - len(own)
                if own:
                    print("   changes own lines:", *own, sep="\n      ")
    return ok


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    fresh()
    for b in ns["BUGS"]:
        if want and b["id"] not in want:
            continue
        sh("git checkout -q -- .")
        print("==", b["id"], b["prop"], flush=True)
        bad = False
        for f, old, new in b["edits"]:
            p = os.path.join(W, f)
            s = open(p).read()
            if s.count(old) != 1:
                print("   edit matches", s.count(old), "times in", f)
                bad = True
                break
            open(p, "w").write(s.replace(old, new))
        if bad:
            continue
        keep = original(None)
        if not keep:
            print("   NOT KEPT: no original line changed")
        miss = tests()
        if miss:
            print("   REJECT: tests fail:", miss[:4])
            continue
        d = os.path.join(V, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        _, diff = sh("git diff")
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.py", "w").write(b["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
        rc1, o1 = sh("bash %s/demo.sh" % d)
        sh("git checkout -q -- .")
        rc0, o0 = sh("bash %s/demo.sh" % d)
        if rc0 != 0 or rc1 == 0:
            print("   REJECT: demo clean rc", rc0, "patched rc", rc1, o0[-300:], o1[-300:])
            shutil.rmtree(d)
            continue
        sh("git apply %s/patch.diff" % d)
        cmd = os.environ.get("CHECKS", b["prop"]).split()
        for c in cmd:
            rc, out = sh("bash %s/harness/run.sh %s" % (V, c), cwd=V, env=dict(ENV, VT_REPO=W, VERIF_TIER="quick", VERIF_SEED="1"))
            v = [l for l in out.splitlines() if l.startswith("VIOLATION property=" + c)]
            print("   ", c, "CAUGHT" if rc == 1 and v else f"missed rc={rc}", len(v), v[0][:150] if v else out[-200:] if rc else "", flush=True)
        sh("git checkout -q -- .")
        if not keep:
            shutil.rmtree(d)
    shutil.rmtree("/tmp/plant")


main()
