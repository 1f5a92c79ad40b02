#!/usr/bin/env python3
"""Runs the concurrent workload of C19 under Miri (data races, undefined
behaviour, deadlocks, with randomised scheduling) and adds what it observed to
the evidence.  Exit 0: silent or not runnable here; 1: a violation (printed)."""
import json, os, re, subprocess, sys, time
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
thorough = os.environ.get("VERIF_TIER") == "thorough"
seed = int(os.environ.get("VERIF_SEED", "1") or 1)
procs, cases, limit = (8, 60, 900) if thorough else (7, 2, 240)
env = dict(os.environ)
env["CARGO_TARGET_DIR"] = root + "/harness/target-miri"
for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
    env.pop(k, None)
cmd = ["cargo", "+nightly", "miri", "run", "--offline", "--bin", "c19"]
def start(i, n):
    e = dict(env, NVERIF_MIRI=str(n), NVERIF_MIRI_BASE=str(1000 + 1000000 * seed + 1000 * i),
             MIRIFLAGS=f"-Zmiri-disable-isolation -Zmiri-seed={seed * 100 + i} -Zmiri-preemption-rate=0.05")
    out = open(f"{root}/replays/C19-miri-{i}.log", "w")
    return subprocess.Popen(["timeout", "-k", "5", str(limit)] + cmd, cwd=root + "/harness",
                            env=e, stdout=out, stderr=subprocess.STDOUT)
t0 = time.time()
os.makedirs(root + "/replays", exist_ok=True)
info = {"runs": 0, "cases": 0, "events": 0, "not_run": ""}
bad = None
first = start(0, 0)          # builds
if first.wait() != 0:
    info["not_run"] = "Miri did not start here; see replays/C19-miri-0.log"
else:
    ps = [(i, start(i, cases)) for i in range(1, procs + 1)]
    for i, p in ps:
        p.wait()
        log = open(f"{root}/replays/C19-miri-{i}.log", errors="replace").read()
        m = re.search(r"^MIRI-CASES (\d+) events (\d+)", log, re.M)
        if m:
            info["runs"] += 1; info["cases"] += int(m[1]); info["events"] += int(m[2])
        elif (re.search(r"^error: (Undefined Behavior|the evaluated program deadlocked|memory leaked)", log, re.M)
              or "MIRI-CASE-FAILED" in log) and bad is None:
            bad = (i, [l for l in log.splitlines() if l.startswith("error:") or "MIRI-CASE-FAILED" in l][:2])
info["wall_s"] = round(time.time() - t0, 1)
p = root + "/evidence/C19.json"
try:
    ev = json.load(open(p))
    ev["coverage"]["observed"]["miri"] = info
    if bad:
        ev["violations"] = ev.get("violations", 0) + 1
    json.dump(ev, open(p, "w"), indent=1)
except (OSError, ValueError):
    pass
print("miri:", info)
if bad:
    print("under Miri:", *bad[1], sep="\n  ")
    print(f"VIOLATION property=C19 replay={root}/replays/C19-miri-{bad[0]}.log")
    sys.exit(1)
