#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the monitors that exist."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "invariant probes around every parser node under a generated workload (span, position and slice monitors)",
 "C02": "entry/exit position probes at every parser node, per failing attempt",
 "C03": "online differential monitor: real parser against an independent reference interpreter",
 "C04": "differential monitor: construction against plain matching and the reference value tree",
 "C05": "handler-invocation log checked against the returned value (exactly-once, order)",
 "C06": "online run-length monitor over all repetition forms",
 "C07": "exhaustive sweep of the character and byte space against standard definitions",
 "C08": "reference monitor for list and repetition construction",
 "C09": "reference monitor for alternative tables, focused workload",
 "C10": "position monitor plus reference verdicts for zero-width parsers and conditionals",
 "C11": "brute-force search oracle over recorded search histories",
 "C12": "differential monitor: policy context against explicitly written skips",
 "C13": "hostile-input stress with overflow, panic, abort and hang observation",
 "C14": "operation-history monitor against a model table",
 "C15": "differential monitor against the standard library's conversions",
 "C16": "reference monitor with injected rejections",
 "C17": "differential monitor: wrapped against bare parser, reused after failures",
 "C18": "independent recognisers and round trips for nested languages",
 "C19": "threads with injected yields, results against the sequential run, deadlock watchdog; a share of the workload under Miri (data races, undefined behaviour)",
 "C20": "transcript comparison across instrumented builds of every feature configuration",
 "C21": "reference monitor with recording builder functions",
 "C22": "condition-call log checked against the specification of each call",
 "C23": "history replay: reused, cloned, reset and user contexts against fresh ones",
 "C24": "differential monitor: macro-written against spelled-out patterns and a reference class",
 "C25": "differential monitor: text against byte run of one grammar",
 "C26": "reference monitor for the error of the failing part",
 "C27": "live-instance accounting with injected panics and allocation plateau monitor",
 "C28": "automaton oracle over element-by-element prefix units",
 "C29": "differential monitor: each shorthand against its parts run one after the other",
 "C30": "trace monitor: every call into user code recorded and compared with the order the reference interpreter makes them",
}
note = ("Exploration: the oracle judges every execution of a seeded, generated workload against the code built from /repo's "
        "working tree with debug assertions and overflow checks; what was executed is in the evidence file. Trusts the harness's oracle.")
checks, na = [], []
for l in open(root + "/properties.jsonl"):
    p = json.loads(l)["id"]
    if os.path.exists(f"{root}/harness/src/bin/{p.lower()}.rs") or os.path.exists(f"{root}/tools/{p.lower()}.py"):
        checks.append({"property": p, "quick_cmd": f"bash check.sh {p}",
                       "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {p}",
                       "evidence_file": f"evidence/{p}.json",
                       "technique": T[p], "level": "exploration", "level_note": note})
    else:
        na.append({"property": p, "reason": "the monitor for this property is not built yet"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "check.sh ID builds harness/src/bin/<id>.rs against /repo and runs it; VERIF_SEED and VERIF_TIER are read from the environment; --replay FILE re-runs a recorded violation."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks", len(na), "not built")
