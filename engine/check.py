"""python engine/check.py C01 [--tier quick|thorough]     decide one property
   python engine/check.py --replay evidence/C01.replay.json   re-run a counterexample
"""
import argparse
import importlib
import json
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
sys.setrecursionlimit(5000)

from engine import runner, scenario  # noqa: E402


def prop_module(pid):
    return importlib.import_module("props." + pid.lower())


def replay(path):
    with open(path) as f:
        data = json.load(f)
    prop = prop_module(data["property"])
    scs = {s.name: s for s in prop.scenarios(data["tier"])}
    sc = scs[data["scenario"]]
    runner.preload(sc.tf)
    try:
        out = runner.run_concrete(sc, data["values"])
    finally:
        scenario.drop_scratch()
    print(json.dumps(out, indent=1, default=str))
    return 1 if out.get("fails") else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    args = ap.parse_args()
    if args.replay:
        return replay(args.replay)
    pid, tier = args.property, args.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop = prop_module(pid)
    evdir = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(evdir, exist_ok=True)
    scenarios, got, violation, wall = runner.run_property(
        prop, tier, seed, jobs=args.jobs, only=args.only, verbose=args.v
    )
    status = 0
    lines = []
    if violation:
        rp = os.path.join(evdir, pid + ".replay.json")
        v = violation["violation"]
        with open(rp, "w") as f:
            json.dump({"property": pid, "tier": tier, "scenario": violation["name"],
                       "values": v["values"], "fails": v["fails"],
                       "observed": v["observed"], "crash": v.get("crash")}, f, indent=1)
        # Once more, in a process of its own, on the untouched source.
        r = subprocess.run([sys.executable, os.path.abspath(__file__), "--replay", rp],
                           capture_output=True, text=True, cwd=VERIF)
        if r.returncode == 1:
            lines.append("counterexample (%s): %s" % (violation["name"], json.dumps(v["values"])))
            for label in v["fails"][:5]:
                lines.append("  broken: " + label)
            lines.append("VIOLATION property=%s replay=%s" % (pid, rp))
            status = 1
        else:
            lines.append("ERROR: counterexample did not reproduce in a fresh process: " + r.stdout[-2000:] + r.stderr[-2000:])
            status = 3
    tot = {}
    for k in ("paths", "branches", "queries", "solver_s", "assertion_queries",
              "concretizations", "validated", "requires"):
        tot[k] = sum(r.get(k, 0) for r in got)
    errors = [r for r in got if r["mode"] == "error"]
    incon = [r["name"] for r in got if r["mode"] == "inconclusive"]
    enum = [(r["name"], r["note"]) for r in got if r["mode"].startswith("enumerated")]
    vac = [(r["name"], r["missing"]) for r in got if r.get("missing")]
    done = {r["name"] for r in got}
    unrun = [s.name for s in scenarios if s.name not in done]
    samples = []
    for r in got:
        samples += r.get("samples", [])
    step = max(1, len(samples) // 8)
    functions = sorted({f for r in got for f in r.get("functions", [])})
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["paths"],
            "transitions": tot["branches"],
            "traces_validated_against_impl": tot["validated"],
            "samples": samples[::step][:10] or [{"violation": violation["violation"]["values"]}] if (samples or violation) else [],
            "scenarios": len(scenarios),
            "scenarios_decided_symbolically": sum(1 for r in got if r["mode"] == "symbolic"),
            "scenarios_by_solver_enumeration": enum,
            "scenarios_inconclusive": incon,
            "scenarios_not_run": unrun,
            "assertions_discharged": tot["requires"],
            "path_assertion_queries": tot["assertion_queries"],
            "solver_queries": tot["queries"],
            "solver_seconds": round(tot["solver_s"], 2),
            "values_concretised_by_solver": tot["concretizations"],
            "functions_encoded": functions,
            "bounds": getattr(prop, "BOUNDS", {}).get(tier, ""),
            "explanation": "states = feasible paths of the real code explored to their end; transitions = branch decisions taken by the solver; every path's assertion was checked for all input values on that path",
        },
        "assumptions": getattr(prop, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": 1 if status == 1 else 0,
    }
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, default=str)
    for r in errors:
        print("ERROR in scenario %s: %s" % (r["name"], r["note"]))
    for name, note in enum:
        print("note: %s decided by solver-driven enumeration (%s)" % (name, note))
    for name in incon:
        note = [r["note"] for r in got if r["name"] == name][0]
        print("note: %s inconclusive, nothing claimed (%s)" % (name, note))
    for name, missing in vac:
        print("note: %s never reached %s" % (name, missing))
    print("%s %s: %d scenarios, %d paths, %d branch decisions, %d queries (%.1f s solver), %d replays agree, %.1f s" % (
        pid, tier, len(got), tot["paths"], tot["branches"], tot["queries"],
        tot["solver_s"], tot["validated"], wall))
    for line in lines:
        print(line)
    if status == 0 and unrun:
        print("note: %d scenarios were not reached in time, nothing claimed for them" % len(unrun))
    if status == 0 and errors:
        status = 4
    if status == 0 and any("any path" in m for n, m in vac if n not in incon):
        status = 5  # a scenario without inputs would hold vacuously
    return status


if __name__ == "__main__":
    sys.exit(main())
