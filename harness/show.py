"""Print replay files compactly: show.py C04-0 C04-1 ..."""
import json, sys, os
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "evidence", "replay")


def s(n):
    if isinstance(n, dict) and "k" in n and "p" in n:
        i = f"#{n['i']}" if "i" in n else ""
        k = n["k"]
        if k == "F":
            return "{" + ", ".join(f"{c[0] if len(c) == 1 else tuple(c)}: {s(p)}" for c, p in zip(n["c"], n["p"])) + "}" + i
        if k in ("B", "S"):
            v = n["v"]
            return (k if k != "B" else "") + (str(v[0]) if v[1] == 1 else f"{v[0]}/{v[1]}") + i
        if k == "Str":
            return repr(n["g"])
        return k + n["g"] + "(" + ", ".join(s(p) for p in n["p"]) + ")" + i
    if isinstance(n, dict):
        return "{" + ", ".join(f"{k}={s(v)}" for k, v in n.items()) + "}"
    if isinstance(n, list):
        return "[" + ", ".join(s(x) for x in n) + "]"
    return str(n)


if __name__ == "__main__":
    for a in sys.argv[1:]:
        fn = os.path.join(d, a + ".json")
        if not os.path.exists(fn):
            continue
        r = json.load(open(fn))
        print(a, r["clauses"], r["count"])
        for e in r["events"][-int(os.environ.get("N", "1")):]:
            for k, v in e.items():
                print("   ", k, "=", s(v))
