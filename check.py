#!/usr/bin/env python3
"""Decides one property: check.py PROPERTY [quick|thorough], or check.py --replay FILE.

Builds what it needs from the working tree of the repository, explores, rewrites
the evidence file, and exits with 0 (held), 1 (violated) or 2 (could not decide).
"""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build  # noqa: E402

RUST = ("C01", "C02", "C03", "C04", "C05", "C06", "C07")
JS = ("C08", "C09", "C10", "C11", "C12", "C17")
CLI = ("C13", "C14", "C15", "C20")
LEVEL = {"C15": "fault_enumeration"}


def explore(prop, tier):
    """Runs the explorer of a property: a dictionary with counts, outcomes,
    samples, violations and assumptions."""
    if prop == "C06" and not build.mc()[2]:
        # types and wire layout of the modules show what was resolved
        a, b = build.run_js("C12", tier), build.run_js("C09", tier)
        with open(os.path.join(HERE, "known_findings.json")) as f:
            listed = {(k["property"], k["finding"]) for k in json.load(f)["known"]}
        a["violations"] = [dict(v, by=p) for p, r in (("C12", a), ("C09", b)) for v in r["violations"] + r["findings"] if (p, v.get("finding")) not in listed]
        a["findings"] = []
        for kind in ("counts", "outcomes"):
            for k, v in b[kind].items():
                a[kind][k] = a[kind].get(k, 0) + v
        a["assumptions"].append(build.SURFACE)
        return a
    if prop in RUST:
        return build.run_mc(prop, tier)
    if prop in JS:
        return build.run_js(prop, tier)
    if prop in CLI:
        from cli import run
        return run.run(prop, tier)
    if prop == "C16":
        from cli import run
        a, b = build.run_mc(prop, tier), run.run(prop, tier)
        for kind in ("counts", "outcomes"):
            for k, v in b[kind].items():
                a[kind][k] = a[kind].get(k, 0) + v
        a["samples"] = a["samples"][:4] + b["samples"][:4]
        a["violations"] += b["violations"]
        a["assumptions"] += [x for x in b["assumptions"] if x not in a["assumptions"]]
        return a
    raise SystemExit("unknown property " + prop)


def evidence(prop, tier, r, known, bad, wall):
    level = LEVEL.get(prop, "model_checking")
    c = dict(r["counts"])
    cov = {"samples": r["samples"][:8], "exhaustive": True}
    if level == "model_checking":
        cov["states"] = c.pop("states", 0)
        cov["transitions"] = c.pop("transitions", 0)
        cov["traces_validated_against_impl"] = c.pop("traces", 0)
    else:
        cov["evaluations"] = c.pop("traces", 0)
        cov["distinct_nontrivial"] = c.pop("nontrivial", 0)
        cov["rule"] = r["rule"]
    cov["space"] = c
    cov["outcomes"] = r["outcomes"]
    cov["known_findings_hit"] = len(known)
    out = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
        "coverage": cov, "assumptions": r["assumptions"], "wall_s": round(wall, 2), "violations": len(bad),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    path = os.path.join(HERE, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(out, f, indent=1)
        f.write("\n")
    os.replace(path + ".tmp", path)


def main():
    args = sys.argv[1:]
    if args and args[0] == "--replay":
        return replay(args[1])
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    begin = time.time()
    r = explore(prop, tier)
    with open(os.path.join(HERE, "known_findings.json")) as f:
        listed = {(k["property"], k["finding"]): k["what"] for k in json.load(f)["known"]}
    known, bad = {}, []
    for v in r["violations"]:
        key = (prop, v.get("finding"))
        if key in listed:
            known[key] = listed[key]
        else:
            bad.append(v)
    # findings which the explorer counted without writing each one out
    for f in r.get("findings", []):
        if (prop, f["finding"]) in listed:
            known[(prop, f["finding"])] = listed[(prop, f["finding"])]
        else:
            bad.append(f)
    for what in sorted(set(known.values())):
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    wall = time.time() - begin
    evidence(prop, tier, r, known, bad, wall)
    print("%s %s: %s, %.1f s" % (prop, tier, ", ".join("%s %s" % (v, k) for k, v in sorted(r["counts"].items())), wall))
    if not bad:
        return 0
    folder = os.path.join(HERE, "evidence", "replay")
    os.makedirs(folder, exist_ok=True)
    for i, v in enumerate(bad[:3]):
        path = os.path.join(folder, "%s-%d.json" % (prop, i + 1))
        with open(path, "w") as f:
            json.dump(dict(v, property=prop, tier=tier), f, indent=1)
        print("violated: " + str(v["what"])[:1000])
        print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def replay(path):
    with open(path) as f:
        v = json.load(f)
    prop = v["property"]
    print("input: " + str(v["input"]))
    if "by" in v:
        what = build.replay_js(v["by"], v)
    elif prop in RUST or prop == "C16" and "steps" not in v:
        what = build.replay_mc(prop, v["input"], v.get("how", ""))
    elif prop in JS:
        what = build.replay_js(prop, v)
    else:
        from cli import run
        what = run.replay(prop, v)
    print("violated: " + what if what else "holds")
    return 1 if what else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except build.Error as e:
        print("ERROR: " + str(e))
        sys.exit(2)
    except Exception:
        # an error of the check, not of the code under test
        traceback.print_exc()
        sys.exit(2)
