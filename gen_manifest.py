#!/usr/bin/env python3
"""Writes MANIFEST.json. Run after changing what is claimed."""
import json, sys
NA = {
 "C18": "Pure conversions of their input: no schedule, clock, fault, message or entropy can influence them, so a simulation would only be input generation in disguise.",
 "C19": "Settings of the benchmark programs are pure functions of their text input; nothing in them depends on scheduling, time, I/O faults or other parties (and they are not part of the library that the simulator can run).",
}
NOTE = {}
def note(i, s): NOTE[i] = s
BASE = "Seeded search, not exhaustive: a clean run is evidence over the simulated runs counted in the evidence file. Trusts the simulator (interposed libc calls, scheduler at control-flow edges), the oracle in sim/src and sequentially consistent memory."
IMPL = sys.argv[1:] or [l.split()[0] for l in open("claimed.txt").read().splitlines() if l.strip()]
TECH = {}
checks = [{
  "property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"./check.sh {i} --tier thorough",
  "evidence_file": f"evidence/{i}.json",
  "technique": "deterministic simulation with fault injection (seeded schedule and fault search in forked single-baton runs, minimised replay)",
  "level": "exploration", "level_note": BASE } for i in IMPL]
na = [{"property": k, "reason": v} for k, v in NA.items()]
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
na += [{"property": i, "reason": "Not claimed yet."} for i in ids if i not in IMPL and i not in NA]
m = {"version": 1, "setup_cmd": "./check.sh --build-only", "checks": checks, "not_applicable": na,
 "notes": "No hooks in /repo: the simulator interposes libc symbols and compiles the code under test with control-flow instrumentation (sim/rustc-wrap.sh). Replay a violation with ./check.sh replay FILE. Genuine defects that were repaired are listed in known-findings.txt."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
