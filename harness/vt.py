"""Driver infrastructure: run the real code, record events, have TLC judge them.

A check module supplies `gen(ctx)`, which drives the real library and calls
`ctx.emit(event)` for everything it observes.  The events are written as ndjson,
one file per worker, and judged by a TLA+ trace specification (one TLC process per
worker).  The oracle is in the TLA+ modules under /verif/spec; nothing here decides
whether an answer is right.
"""
import collections
import json
import multiprocessing
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla"
PY = "/opt/venv/bin/python"


class OpTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise OpTimeout()


class Ctx:
    """One worker's view of a check run."""

    def __init__(self, pid, tier, seed, shard, nshards, scratch):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.shard, self.nshards = shard, nshards
        self.scratch = scratch
        self.rng = random.Random(f"{pid}/{seed}/{shard}")
        self.path = os.path.join(scratch, f"{pid}-{shard}.ndjson")
        self.out = open(self.path, "w")
        self.n = 0
        self.counts = collections.Counter()
        self.notes = collections.Counter()
        self.seen = set()
        self.i = 0
        self.timeouts = 0

    @property
    def thorough(self):
        return self.tier == "thorough"

    def mine(self):
        """Stripe an exhaustive enumeration over the workers."""
        self.i += 1
        return self.i % self.nshards == self.shard

    def share(self, quick, thorough=None):
        """This worker's share of a number of random cases."""
        n = quick if not self.thorough else (thorough if thorough is not None else 8 * quick)
        return n // self.nshards + (1 if n % self.nshards > self.shard else 0)

    def emit(self, ev, key=None):
        self.out.write(json.dumps(ev, separators=(",", ":")) + "\n")
        self.n += 1
        self.counts[ev["op"]] += 1
        if key is not None:
            self.seen.add(hash(key))
        return self.n

    def call(self, fn, *a, limit=5.0, **kw):
        """Run code under test. Returns (error class name or "", result)."""
        if self.timeouts > 20:
            return "Timeout", None
        signal.signal(signal.SIGPROF, _alarm)          # CPU time: the load of the machine must not matter
        signal.setitimer(signal.ITIMER_PROF, limit)
        try:
            r = fn(*a, **kw)
            signal.setitimer(signal.ITIMER_PROF, 0)
            return "", r
        except OpTimeout:
            self.timeouts += 1
            return "Timeout", None
        except RecursionError:
            return "RecursionError", None
        except Exception as e:
            return type(e).__name__, None
        except SystemExit:
            return "SystemExit", None
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)


def java_cmd(heap="1g", extra=()):
    return ["java", "-XX:+UseSerialGC", f"-Xmx{heap}", "-Xss64m", "-XX:TieredStopAtLevel=4", *extra, "-cp",
            f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar", "tlc2.TLC"]


def tlc(module, cfg, workdir, env=None, args=(), timeout=800, heap="1g"):
    """Run TLC on spec/<module>.tla with cfg text; returns (rc, stdout)."""
    os.makedirs(workdir, exist_ok=True)
    cfgp = os.path.join(workdir, module + ".cfg")
    with open(cfgp, "w") as f:
        f.write(cfg)
    meta = tempfile.mkdtemp(dir=workdir)
    e = dict(os.environ)
    e.update(env or {})
    cmd = java_cmd(heap, extra=(f"-DTLA-Library={SPEC}", f"-Djava.io.tmpdir={workdir}")) + [
        "-metadir", meta, "-noGenerateSpecTE", "-config", cfgp, *args,
        os.path.join(SPEC, module + ".tla")]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         env=e, cwd=workdir, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return -9, out
    shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, out


TRACE_CFG = "SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\nPOSTCONDITION TraceAccepted\n"

V_RE = re.compile(r'^"V\|(\d+)\|(.*)"$')
D_RE = re.compile(r'^"D\|(\d+)"$')


def judge(module, path, n, workdir, cfg=TRACE_CFG, timeout=800):
    """Judge events 1..n of path. Returns (list of (index, [clauses]), problem)."""
    verdicts = []
    start = 1
    skips = 0
    while True:
        rc, out = tlc(module, cfg, workdir, env={"TRACE": path, "TRACE_START": str(start)},
                      args=("-workers", "1"), timeout=timeout)
        done = None
        last = start
        for line in out.splitlines():
            m = V_RE.match(line)
            if m:
                cl = re.findall(r'\\"([^"\\]*)\\"', m.group(2))
                verdicts.append((int(m.group(1)), cl))
                continue
            m = D_RE.match(line)
            if m:
                done = int(m.group(1))
        if done == n:
            return verdicts, None
        # TLC could not evaluate an event: the record is outside the domain of the
        # specification (e.g. a payload that is not a number). Name it and go on after it.
        m = re.findall(r"/\\ l = (\d+)|^l = (\d+)", out, re.M)
        idx = [int(a or b) for a, b in m]
        evalerr = ("Error: Evaluating" in out or "TLC threw an unexpected exception" in out
                   or "Attempted to" in out or "was not in the domain" in out
                   or "The error occurred" in out or "In evaluation" in out)
        if rc == -9 or "OutOfMemory" in out or not evalerr or not idx or skips >= 25:
            return verdicts, f"TLC ended rc={rc}\n" + out[-3000:]
        bad = max(idx)
        verdicts.append((bad, ["OutsideSpecDomain"]))
        if os.environ.get("VT_DEBUG"):
            sys.stderr.write(out[-3000:] + "\n")
        skips += 1
        start = bad + 1
        if start > n:
            return verdicts, None


def _worker(pid, gen, module, tier, seed, shard, nshards, scratch, q):
    try:
        wd = os.path.join(scratch, f"w{shard}")
        os.makedirs(wd, exist_ok=True)
        os.chdir(wd)
        ctx = Ctx(pid, tier, seed, shard, nshards, wd)
        devnull = open(os.devnull, "w")
        so = sys.stdout
        sys.stdout = devnull
        t0 = time.time()
        crash = None
        try:
            gen(ctx)
        except Exception as e:
            # an error out of the library where none is possible is an observation, too
            tb = e.__traceback__
            while tb.tb_next:
                tb = tb.tb_next
            if not os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(os.path.join(os.path.realpath(REPO), "fibertree") + os.sep):
                raise
            crash = dict(op="crash", err=type(e).__name__, trace=traceback.format_exc()[-1500:])
        finally:
            sys.stdout = so
        ctx.out.close()
        t1 = time.time()
        verdicts, problem = ([], None)
        if ctx.n:
            verdicts, problem = judge(module, ctx.path, ctx.n, wd)
        if crash:
            with open(ctx.path, "a") as f:
                f.write(json.dumps(crash) + "\n")
            verdicts.append((ctx.n + 1, ["library-error"]))
        t2 = time.time()
        q.put(dict(shard=shard, n=ctx.n, counts=dict(ctx.counts), notes=dict(ctx.notes),
                   distinct=len(ctx.seen), verdicts=verdicts, problem=problem, path=ctx.path,
                   t_drive=t1 - t0, t_judge=t2 - t1))
    except BaseException:
        q.put(dict(shard=shard, n=0, counts={}, notes={}, distinct=0, verdicts=[], path="",
                   problem=traceback.format_exc(), t_drive=0, t_judge=0))


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def run_mc(spec, scratch):
    """Exhaustively check one design model. spec: dict(module, cfg, [args])."""
    t0 = time.time()
    rc, out = tlc(spec["module"], spec["cfg"], os.path.join(scratch, "mc-" + spec["name"]),
                  args=spec.get("args", ("-workers", "2")), timeout=spec.get("timeout", 600),
                  heap=spec.get("heap", "2g"))
    m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
    gen, dis = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
    ok = rc == 0 and "No error has been found" in out
    return dict(name=spec["name"], ok=ok, states=dis, transitions=gen, wall_s=round(time.time() - t0, 1),
                out=out if not ok else "")


def _mc_worker(spec, scratch, q):
    try:
        q.put(run_mc(spec, scratch))
    except BaseException:
        q.put(dict(name=spec["name"], ok=False, states=0, transitions=0, wall_s=0,
                   out=traceback.format_exc()))


def main(pid, gen, module, mc=(), nshards=None, rule="", assumptions=(), history=False, nontrivial=None):
    """Run one property's check and exit."""
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    nshards = nshards or 8
    scratch = tempfile.mkdtemp(prefix=f"vt-{pid}-")
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    rdir = os.path.join(evdir, "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + "-"):
            os.unlink(os.path.join(rdir, f))
    try:
        os.environ.setdefault("MPLCONFIGDIR", os.path.join(scratch, "mpl"))
        q = multiprocessing.Queue()
        mq = multiprocessing.Queue()
        mcs = [s for s in mc if tier == "thorough" or not s.get("thorough_only")]
        mps = [multiprocessing.Process(target=_mc_worker, args=(s, scratch, mq)) for s in mcs]
        ps = [multiprocessing.Process(target=_worker, args=(pid, gen, module, tier, seed, s, nshards, scratch, q))
              for s in range(nshards)]
        for p in ps + mps:
            p.start()
        res = [q.get() for _ in ps]
        mres = [mq.get() for _ in mps]
        for p in ps + mps:
            p.join()
        res.sort(key=lambda r: r["shard"])
        problems = [r["problem"] for r in res if r["problem"]]
        problems += [f"design model {m['name']} failed:\n" + m["out"][-4000:] for m in mres if not m["ok"]]
        known = [k for k in load_known() if k["property"] == pid]
        kn_ids = {k["id"]: k for k in known}
        nviol = 0
        kf_seen = collections.Counter()
        groups = collections.OrderedDict()
        samples = []
        for r in res:
            lines = None
            if r["path"] and os.path.exists(r["path"]):
                lines = open(r["path"]).read().splitlines()
                if lines and len(samples) < 4:
                    s = lines[len(lines) // 2]
                    if len(s) < 3000:
                        samples.append(json.loads(s))
            for idx, clauses in r["verdicts"]:
                real = []
                for c in clauses:
                    if c.startswith("KF:") and c[3:] in kn_ids:
                        kf_seen[c[3:]] += 1
                    else:
                        real.append(c)
                if not real:
                    continue
                nviol += 1
                ev = json.loads(lines[idx - 1])
                key = (ev["op"], tuple(sorted(real)))
                g = groups.setdefault(key, [0, None])
                g[0] += 1
                size = len(lines[idx - 1])
                if g[1] is None or size < g[1][0]:
                    evs = [ev]
                    if history:
                        j = idx - 1
                        while j >= 0:
                            e = json.loads(lines[j])
                            if e["op"] == "start":
                                break
                            j -= 1
                        evs = [json.loads(x) for x in lines[max(j, 0):idx]]
                    g[1] = (size, evs, sorted(real))
        for i, ((op, cl), (cnt, (_, evs, real))) in enumerate(groups.items()):
            if i >= 25:
                break
            rp = os.path.join("evidence", "replay", f"{pid}-{i}.json")
            with open(os.path.join(VERIF, rp), "w") as f:
                json.dump(dict(property=pid, module=module, clauses=real, count=cnt, events=evs), f, indent=1)
            print(f"VIOLATION property={pid} replay={rp} op={op} clauses={','.join(cl)} count={cnt}")
        for k in known:
            print(f"KNOWN-FINDING: property={pid} {k['id']}: {k['what']} (seen {kf_seen[k['id']]}x)")
        total = sum(r["n"] for r in res)
        counts = collections.Counter()
        notes = collections.Counter()
        for r in res:
            counts.update(r["counts"])
            notes.update(r["notes"])
        ev = dict(property=pid, tier=tier, seed=seed, level="model_checking",
                  coverage=dict(
                      states=sum(m["states"] for m in mres) + total + len(res),
                      transitions=sum(m["transitions"] for m in mres) + total,
                      traces_validated_against_impl=notes.get("histories", 0) or total,
                      events_judged=total,
                      evaluations=total,
                      distinct_nontrivial=sum(r["distinct"] for r in res),
                      rule=rule,
                      events_by_operation=dict(sorted(counts.items())),
                      notes=dict(sorted(notes.items())),
                      design_models=[{k: v for k, v in m.items() if k != "out"} for m in mres],
                      known_findings_seen=dict(kf_seen),
                      drive_s=round(max(r["t_drive"] for r in res), 1),
                      judge_s=round(max(r["t_judge"] for r in res), 1),
                      samples=samples or [{}]),
                  assumptions=list(assumptions), wall_s=round(time.time() - t0, 2), violations=nviol)
        with open(os.path.join(evdir, pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print(f"{pid}: {total} events judged, {nviol} violating, {len(mres)} design models "
              f"({sum(m['states'] for m in mres)} states), {time.time() - t0:.1f}s")
        for p in problems[:3]:
            print("MACHINERY: " + p)
        if nviol:
            rc = 1
        elif problems:
            rc = 2
        else:
            rc = 0
    finally:
        if os.environ.get("VT_KEEP"):
            print("kept", scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)
