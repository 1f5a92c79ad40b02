#!/usr/bin/env python3
"""C20: the same workload in every build configuration, transcripts compared.

Two workloads are built once per configuration, from /repo's working tree:
  harness/src/bin/c20t.rs   generated grammars (needs an allocator)
  featcorpus                typed parsers that need nothing but the core library
With logging or tracing on, a sink renders every record at the most verbose
level.  The default configuration is the reference.
"""
import json, os, resource, struct, subprocess, sys, time

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
seed = int(os.environ.get("VERIF_SEED", "1"))
thorough = os.environ.get("VERIF_TIER") == "thorough"
out = os.environ.get("NVERIF_ROOT", root)
target = os.environ["CARGO_TARGET_DIR"]
t0 = time.time()
replay_file = f"{out}/replays/C20.txt"

# "shipped": optimised, without debug assertions and overflow checks
GEN = [("std", "std"), ("shipped", "std"), ("alloc", ""), ("std+log", "std,log"), ("std+tracing", "std,tracing")]
if thorough:
    GEN += [("alloc+log", "log"), ("alloc+tracing", "tracing")]
COR = [("std", "std"), ("shipped", "std"), ("none", ""), ("alloc", "alloc"), ("none+log", "log"), ("none+tracing", "tracing")]
if thorough:
    COR += [("std+log", "std,log"), ("std+tracing", "std,tracing"), ("alloc+log", "alloc,log"), ("alloc+tracing", "alloc,tracing")]


def violation(text):
    os.makedirs(f"{out}/replays", exist_ok=True)
    open(replay_file, "w").write(f"property C20\nseed {seed}\n" + text + "\n")
    evidence(1)
    print(text[:4000])
    print(f"\nVIOLATION property=C20 replay={replay_file}")
    sys.exit(1)


observed = {}
totals = {"evaluations": 0, "nontrivial": 0, "events": 0}
samples = []


def evidence(v):
    os.makedirs(f"{out}/evidence", exist_ok=True)
    json.dump({
        "property": "C20", "tier": "thorough" if thorough else "quick", "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": totals["evaluations"], "distinct_nontrivial": totals["nontrivial"],
            "rule": "one generated grammar or typed parser on one input, its matches, spans, values, positions, errors and handler calls recorded in every build configuration and compared with the default one; non-trivial when something non-empty matched or was rolled back, counted in one configuration",
            "events_observed": totals["events"], "observed": observed, "samples": samples},
        "assumptions": ["configurations that cannot express a construct (no allocator: vectors and boxed parsers) run the workload without it"],
        "violations": v, "wall_s": round(time.time() - t0, 3)}, open(f"{out}/evidence/C20.json", "w"), indent=1)


def cargo(kind, name, feats, tdir):
    args = ["cargo", "+stable", "build", "--offline", "--no-default-features", "--target-dir", tdir]
    if name == "shipped":
        args += ["--profile", "ship"]
    if feats:
        args += ["--features", feats]
    if kind == "gen":
        args += ["--bin", "c20t"]
    cwd = f"{root}/harness" if kind == "gen" else f"{root}/featcorpus"
    return subprocess.Popen(args, cwd=cwd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)


builds = [("gen", n, f, f"{target}/v-{n}") for n, f in GEN] + [("cor", n, f, f"{target}/f-{n}") for n, f in COR]
todo, running = list(builds), []
while todo or running:
    while todo and len(running) < 4:
        b = todo.pop(0)
        running.append((b, cargo(b[0], b[1], b[2], b[3])))
    b, p = running.pop(0)
    err = p.communicate()[1]
    if p.returncode != 0:
        for _, q in running:
            q.kill()
            q.wait()
        if "could not compile `neure`" in err:
            lines = [l for l in err.splitlines() if l.startswith("error") or l.strip().startswith("--> ")]
            violation(f"configuration {b[1]}: the library does not build\n" + "\n".join(lines[:20]))
        print(err[-3000:])
        print(f"BUILD ERROR: the C20 workload does not build in configuration {b[1]}")
        sys.exit(2)
observed["build_s"] = round(time.time() - t0, 1)
observed["configurations"] = [f"{k} {n}" for k, n, _, _ in builds]


def run(args, limit=400):
    try:
        return subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=limit,
                              preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30)))
    except subprocess.TimeoutExpired:
        return None


def prof(name):
    return "ship" if name == "shipped" else "debug"


def rounds(seed, n, inputs):
    # generated grammars
    ref = None
    for name, _ in GEN:
        exe, f = f"{target}/v-{name}/{prof(name)}/c20t", f"{target}/c20-{name}.bin"
        p = run([exe, str(seed), str(n), f])
        if p is None or p.returncode != 0:
            what = "does not end" if p is None else f"ends with status {p.returncode}: {p.stderr[-1500:]}"
            if ref is None or (p is not None and p.returncode == 2):
                print(f"HARNESS ERROR: workload in configuration {name} {what}")
                sys.exit(2)
            violation(f"configuration {name}: the workload {what}; the default configuration ran it to the end")
        s = json.loads(p.stdout)
        hashes = struct.unpack(f"<{n}Q", open(f, "rb").read())
        os.remove(f)
        o = observed.setdefault(f"generated {name}", {"cases": 0, "diagnostic_records": 0, "diagnostic_bytes": 0})
        o["cases"] += s["cases"]
        o["diagnostic_records"] += s["records"]
        o["diagnostic_bytes"] += s["record_bytes"]
        o["record_kinds"] = max(o.get("record_kinds", 0), s["record_kinds"])
        totals["evaluations"] += s["cases"]
        totals["events"] += s["events"]
        if ref is None:
            ref = (exe, hashes)
            totals["nontrivial"] += s["nontrivial"]
            if not samples:
                for i in (0, 1):
                    samples.append(run([exe, str(seed), str(i)]).stdout.strip()[:600])
            continue
        if ("log" in name or "tracing" in name) and s["records"] == 0:
            print(f"HARNESS ERROR: configuration {name} recorded nothing")
            sys.exit(2)
        for i, (a, b) in enumerate(zip(ref[1], hashes)):
            if a != b:
                a, b = run([ref[0], str(seed), str(i)]), run([exe, str(seed), str(i)])
                violation(f"replay: {ref[0]} {seed} {i}; {exe} {seed} {i}\n"
                          f"case {i}, default configuration:\n{a.stdout}\nconfiguration {name}:\n{b.stdout}{b.stderr[-500:]}")
    # typed corpus
    ref = None
    for name, _ in COR:
        exe = f"{target}/f-{name}/{prof(name)}/featcorpus"
        p = run([exe, str(seed), str(inputs)])
        if p is None or p.returncode != 0:
            what = "does not end" if p is None else f"ends with status {p.returncode}: {p.stderr[-1500:]}"
            if ref is None:
                print(f"HARNESS ERROR: corpus in configuration {name} {what}")
                sys.exit(2)
            violation(f"configuration {name}: the corpus {what}; the default configuration ran it to the end")
        lines = p.stdout.splitlines()
        s = json.loads(lines.pop()[1:])
        got = dict(l.rsplit("\t", 1) for l in lines)
        o = observed.setdefault(f"corpus {name}", {"evaluations": 0, "diagnostic_records": 0})
        o["evaluations"] += s["evaluations"]
        o["diagnostic_records"] += s["records"]
        o["parsers_and_modes"] = len(got)
        totals["evaluations"] += s["evaluations"]
        totals["events"] += s["evaluations"]
        if ref is None:
            ref = (exe, got)
            totals["nontrivial"] += s["ok"]
            continue
        for k in ref[1]:
            if got.get(k) != ref[1][k]:
                a = run([ref[0], str(seed), str(inputs), "--only", k]).stdout.splitlines()
                b = run([exe, str(seed), str(inputs), "--only", k]).stdout.splitlines()
                d = [f"default: {x}\n{name}: {y}" for x, y in zip(a, b) if x != y and " -> " in x][:3]
                violation(f"replay: {exe} {seed} {inputs} --only '{k}'\nparser '{k}' differs in configuration {name}\n" + "\n".join(d))


if thorough:
    k = 0
    while time.time() - t0 < 420:
        rounds(seed * 1000 + k, 400_000, 2_000)
        k += 1
else:
    rounds(seed, 250_000, 1_500)
evidence(0)
print(f"C20: {len(builds)} builds, {totals['evaluations']} evaluations, {totals['nontrivial']} distinct non-trivial, {time.time() - t0:.1f} s")
