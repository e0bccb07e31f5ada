#!/usr/bin/env python3
"""check.py <PROPERTY> : decide one property from /repo's current sources (static analysis only)."""
import json
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "engine"))
sys.setrecursionlimit(20000)


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    import build
    build.ensure_tools()
    import runner
    if tier == "thorough" and "VP_BUDGET" not in os.environ:
        runner.BUDGET = 9000.0
        runner.FIRST = 400
    import props
    from report import Report
    if pid not in props.PROPS:
        print("unknown property %s" % pid)
        return 2
    try:
        rep = props.PROPS[pid](tier)
    except build.AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        return 2
    except build.BuildError as e:
        print("ANALYSIS-BROKEN property=%s harness does not compile\n%s" % (pid, e))
        return 2
    known = load_known(pid)
    viols, knownhits = [], []
    for v in rep.violations:
        k = next((k for k in known if match_known(k, v)), None)
        if k is not None:
            knownhits.append((k, v))
        else:
            viols.append(v)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": rep.coverage(), "assumptions": rep.assumptions,
        "wall_s": round(time.time() - t0, 2), "violations": len(viols),
    }
    if knownhits:
        ev["coverage"]["known_findings_seen"] = [k["id"] for k, _ in knownhits]
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    seen = set()
    for k, v in knownhits:
        if k["id"] not in seen:
            seen.add(k["id"])
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if rep.broken:
        for b in rep.broken[:10]:
            print("ANALYSIS-BROKEN property=%s %s" % (pid, b))
        if not viols:
            return 2
    if viols:
        rd = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, pid + ".txt")
        with open(path, "w") as f:
            for v in viols:
                f.write(format_viol(v) + "\n\n")
        for v in viols[:5]:
            print(format_viol(v, short=True))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("property %s held: %s" % (pid, rep.summary()))
    return 0


def format_viol(v, short=False):
    s = "%s: %s\n  at %s\n  entry %s" % (v.get("cat"), v.get("msg"), v.get("loc"), v.get("entry"))
    if v.get("witness"):
        s += "\n  abstract state contains: %s" % (", ".join("%s=%s" % kv for kv in list(v["witness"].items())[:30]))
    if not short:
        for p in v.get("path", []):
            s += "\n    | " + p
    return s


def load_known(pid):
    out = []
    p = os.path.join(ROOT, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith("#") or l.startswith("fixed:"):
                continue
            d = json.loads(l)
            if d.get("status") == "known" and d["property"] == pid:
                out.append(d)
    return out


def match_known(k, v):
    m = k["match"]
    return all(str(v.get(f, "")) == x if not x.startswith("~") else x[1:] in str(v.get(f, "")) for f, x in m.items())


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
