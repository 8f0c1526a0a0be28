"""Mutation sampling (development tool; no check uses it).

mutate.py N SEED [file-regex] [func-regex]: sample N small syntactic changes to /repo, drop those the
repository's tests notice, and run one eighth of every quick check (in the order likely to notice)
on the rest.  Each result is a line of /tmp/mut/log.ndjson.
"""
import ast, json, os, random, re, shutil, subprocess, sys, multiprocessing
V, ROOT = "/verif", "/tmp/mut"
FILES = ["core/fiber.py", "core/iterators.py", "core/tensor.py", "core/payload.py", "core/coord_payload.py", "core/rank.py",
         "core/rank_attrs.py", "core/metrics.py", "model/traffic.py", "model/format.py", "model/intersect.py", "model/compute.py",
         "codec/tensor_codec.py", "codec/formats/coord_list.py", "codec/formats/bitvector.py", "codec/formats/compression_format.py",
         "codec/formats/uncompressed.py", "codec/compression_types.py"]
ORDER = {"core/payload.py": "C11 C03 C15 C04", "core/coord_payload.py": "C11 C03 C04", "core/metrics.py": "C15 C16 C06", "model/traffic.py": "C17",
         "model/format.py": "C18", "model/intersect.py": "C19", "model/compute.py": "C19", "codec": "C20", "core/iterators.py": "C07 C04 C05 C16 C15 C06",
         "core/tensor.py": "C14 C09 C08 C13 C10 C02 C12 C18", "core/fiber.py": "C03 C01 C08 C09 C11 C13 C14 C07 C12 C02 C10 C05",
         "core/rank.py": "C02 C14 C10 C03", "core/rank_attrs.py": "C14 C10 C02 C03"}
ALL = ["C%02d" % i for i in range(1, 21)]
SKIPF = re.compile(r"print|__str__|__repr__|__format__|_deprecated|insertElement|updatePayload|color|Color|image|interactive|logger|parse$|__reduce__|log")
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.FloorDiv: "*", ast.Mod: "//"}


def mutants(rel):
    src = open("/repo/fibertree/" + rel).read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for x in lines:
        off.append(off[-1] + len(x.encode()))
    b = src.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        i, j = span(n)
        return b[i:j].decode()
    out = []

    def rep(n, new, kind, fn):
        i, j = span(n)
        if new != text(n):
            out.append(dict(file=rel, i=i, j=j, old=text(n), new=new, kind=kind, line=n.lineno, fn=fn))

    def visit(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            fn = fn + "." + n.name if fn else n.name
            if SKIPF.search(n.name):
                return
        if isinstance(n, (ast.Assert, ast.Raise)):
            return
        if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and "__name__" in text(n.test):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            rep(n, f"{text(n.left)} {CMP[type(n.ops[0])]} {text(n.comparators[0])}", "cmp", fn)
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            rep(n, f"{text(n.left)} {BIN[type(n.op)]} {text(n.right)}", "bin", fn)
        if isinstance(n, ast.BoolOp):
            for v in n.values:
                rep(n, (" or " if isinstance(n.op, ast.Or) else " and ").join("(" + text(x) + ")" for x in n.values if x is not v), "drop", fn)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep(n, text(n.operand), "not", fn)
        if isinstance(n, ast.Constant) and type(n.value) is int:
            rep(n, str(n.value + 1), "const", fn)
            if n.value:
                rep(n, str(n.value - 1), "const", fn)
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            rep(n, str(not n.value), "bool", fn)
        if isinstance(n, (ast.If, ast.IfExp)):
            rep(n.test, "True", "if", fn)
            rep(n.test, "False", "if", fn)
        if isinstance(n, (ast.Expr, ast.AugAssign)) and not (isinstance(n, ast.Expr) and isinstance(n.value, (ast.Constant, ast.Yield))):
            rep(n, "pass", "del", fn)
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            rep(n, "pass", "del", fn)
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            rep(n, "pass", "del", fn)
        if isinstance(n, (ast.Break,)):
            rep(n, "continue", "flow", fn)
        if isinstance(n, ast.Continue):
            rep(n, "pass", "flow", fn)
        if isinstance(n, ast.Call):
            t = text(n.func)
            if t.endswith("deepcopy") and n.args or t in ("list", "sorted", "set", "reversed", "tuple", "min", "max") and len(n.args) == 1:
                rep(n, "(" + text(n.args[0]) + ")", "copy", fn)
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "getDefault") and not n.args:
                rep(n, "(" + text(n.func.value) + ")", "copy", fn)
            for k in n.keywords:
                if k.arg:
                    parts = [text(a) for a in n.args] + [f"{x.arg}={text(x.value)}" if x.arg else "**" + text(x.value) for x in n.keywords if x is not k]
                    rep(n, f"{t}({', '.join(parts)})", "kw", fn)
            if len(n.args) == 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
                rep(n, f"{t}({text(n.args[1])}, {text(n.args[0])})", "swap", fn)
        if isinstance(n, ast.Slice):
            if n.lower is not None:
                rep(n.lower, text(n.lower) + " + 1", "slice", fn)
            if n.upper is not None:
                rep(n.upper, text(n.upper) + " - 1", "slice", fn)
        for ch in ast.iter_child_nodes(n):
            visit(ch, fn)
    visit(tree, "")
    return out


def worker(w, jobs, logq):
    base = f"{ROOT}/w{w}"
    repo, ver = base + "/repo", base + "/verif"
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", MPLCONFIGDIR=base + "/mpl", PYTHONPATH=repo, VT_REPO=repo, TMPDIR=base + "/tmp")
    os.makedirs(base + "/tmp", exist_ok=True)
    for m in iter(jobs.get, None):
        p = f"{repo}/fibertree/{m['file']}"
        b = open(p, "rb").read()
        new = b[:m["i"]] + m["new"].encode() + b[m["j"]:]
        try:
            compile(new, p, "exec")
        except SyntaxError:
            continue
        open(p, "wb").write(new)
        try:
            r = subprocess.run("/opt/venv/bin/python -m pytest -x -q -p no:cacheprovider --timeout=60 --rootdir=%s ." % repo, shell=True, cwd=repo + "/test", env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
            killed = r.returncode != 0
        except subprocess.TimeoutExpired:
            killed = True
        res = dict(m, result="tests")
        if not killed:
            first = next((v for k, v in ORDER.items() if m["file"].startswith(k)), "").split()
            res["result"] = "MISSED"
            res["odd"] = []
            for c in first + [x for x in ALL if x not in first and os.environ.get("EVERY")]:
                try:
                    r = subprocess.run(["timeout", "-k", "5", "400", "bash", "harness/run.sh", c], cwd=ver, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                except Exception as e:
                    res["odd"].append(c + " " + str(e)[:100])
                    continue
                if r.returncode == 1:
                    res["result"] = c
                    res["clause"] = next((x for x in r.stdout.splitlines() if x.startswith("VIOL")), "")[-90:]
                    break
                if r.returncode:
                    res["odd"].append(c + f" rc={r.returncode} " + r.stdout[-300:])
        open(p, "wb").write(b)
        shutil.rmtree(repo + "/test/tmp", ignore_errors=True)
        logq.put(res)
    logq.put(None)


def main():
    n, seed = int(sys.argv[1]), sys.argv[2]
    fre, nre = (sys.argv[3] if len(sys.argv) > 3 else "."), (sys.argv[4] if len(sys.argv) > 4 else ".")
    scale = float(os.environ.get("SCALE", "1"))
    ms = [m for f in FILES if os.path.exists("/repo/fibertree/" + f) and re.search(fre, f) for m in mutants(f) if re.search(nre, m["fn"])]
    done = set()
    if os.path.exists(ROOT + "/log.ndjson"):
        done = {(d["file"], d["i"], d["j"], d["new"]) for d in map(json.loads, open(ROOT + "/log.ndjson"))}
    ms = [m for m in ms if (m["file"], m["i"], m["j"], m["new"]) not in done]
    random.Random(seed).shuffle(ms)
    print(len(ms), "mutants;", n, "sampled")
    ms = ms[:n]
    nw = int(os.environ.get("NW", "8"))
    for w in range(nw):
        base = f"{ROOT}/w{w}"
        if os.path.isdir(base):
            shutil.rmtree(base)
        os.makedirs(base)
        subprocess.run(["cp", "-a", "/repo", base + "/repo"])
        os.makedirs(base + "/verif")
        for d in ("harness", "checks", "spec", "known_findings.json", "properties.jsonl"):
            subprocess.run(["cp", "-a", f"{V}/{d}", base + "/verif/"])
        p = base + "/verif/harness/vt.py"
        s = open(p).read()
        s = s.replace("for s in range(nshards)]", f"for s in [{w}]]").replace("        return n // self.nshards", f"        n = int(n * {scale})\n        return n // self.nshards")
        s = s.replace("        mcs = [s for s in mc", "        mcs = [s for s in ()")
        open(p, "w").write(s)
    jobs, logq = multiprocessing.Queue(), multiprocessing.Queue()
    for m in ms:
        jobs.put(m)
    for _ in range(nw):
        jobs.put(None)
    ps = [multiprocessing.Process(target=worker, args=(w, jobs, logq)) for w in range(nw)]
    for p in ps:
        p.start()
    left = nw
    with open(ROOT + "/log.ndjson", "a") as f:
        while left:
            r = logq.get()
            if r is None:
                left -= 1
                continue
            f.write(json.dumps(r) + "\n")
            f.flush()
            if r["result"] != "tests":
                print(r["result"], f"{r['file']}:{r['line']} {r['fn']} [{r['kind']}] {r['old'][:70]!r} -> {r['new'][:70]!r}", *r.get("odd", []), flush=True)


main()
