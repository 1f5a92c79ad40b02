#!/usr/bin/env python3
"""Adds what the monitor observed in the shipped build (optimised, without debug
assertions and overflow checks, other cases) to the evidence of the check."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
prop, seed = sys.argv[1], int(sys.argv[2])
main, ship = f"{root}/evidence/{prop}.json", f"{root}/harness/target/ship-evidence/{prop}.json"
ev = json.load(open(main))
if os.path.exists(ship):
    s = json.load(open(ship))
    os.remove(ship)
    c = s["coverage"]
    ev["coverage"]["observed"]["shipped_build"] = {
        "seed": seed, "evaluations": c["evaluations"], "distinct_nontrivial": c["distinct_nontrivial"],
        "events_observed": c["events_observed"], "violations": s["violations"], "wall_s": s["wall_s"]}
    ev["violations"] += s["violations"]
    ev["wall_s"] = round(ev["wall_s"] + s["wall_s"], 3)
    json.dump(ev, open(main, "w"), indent=1)
