#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties the simulator registers."""
import json, subprocess, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = subprocess.run([V + "/build/sim", "-list"], capture_output=True, text=True, check=True).stdout.split()
note = ("Seeded search over schedules, workloads and faults in a simulator that runs pargo's own code (instrumented from /repo's "
        "current tree) on simulated goroutines, channels, locks, clock and contexts: a clean batch is evidence, not proof. "
        "Assumes sequential consistency between scheduling points (data races are found by happens-before), and trusts the instrumenter, the shims for sync, atomic, channels, time and context, and the oracles in sim/harness.")
checks = []
for i in ids:
    checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": "deterministic simulation with fault injection (seeded schedule and fault search)",
                   "level": "exploration", "level_note": note})
na = []
claimed = set(ids)
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)["id"]
    if p not in claimed:
        na.append({"property": p, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the simulator compiles an instrumented copy of the current tree (sim/gen), made on every run. fix: commits in /repo are listed in known_findings.txt."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
