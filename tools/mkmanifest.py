#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties that have a check in dst/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from dst import props
NOTE = ("Seeded search: every plan (operations, thread schedule, faults) follows from VERIF_SEED; nothing beyond the plans run is claimed. "
        "All library code is real and instrumented; scheduler, heap, locks, clock and callbacks are simulated. Plain memory is sequentially consistent, atomics may read older stores as far as the C++ memory model lets them; "
        "libstdc++/libm calls are atomic for the scheduler. Reference of a result: the same code run in isolation.")
TECH = "deterministic simulation with fault injection: "
T = {
    "C01": "seeded preemptive scheduling of the real code under a simulated runtime, happens-before race detection, results against isolated runs",
    "C02": "seeded operation histories with address reuse and poisoned memory, results against isolated runs",
    "C03": "seeded throws from callbacks, builders and copies, then results against isolated runs and leak scan",
    "C04": "seeded allocation failures in every operation, then results against isolated runs and leak scan",
    "C05": "seeded schedules and histories with an invariant on every callback call and destroyed callback environments",
    "C06": "seeded non-finite values from callbacks under work and memory budgets",
    "C07": "seeded reentrant operations from callbacks, results against isolated runs",
    "C08": "seeded histories with faults and disturbed streams and locales, process state compared around every operation",
    "C09": "the profiling build under the same simulation with clock jumps and threads, results against isolated runs of the plain build, the report against the simulator's own count of entered scopes",
    "C10": "seeded lifetimes and orders of destruction on a simulated heap with leak scan and growth measurement",
    "C11": "the real binding code on a simulated interpreter with seeded collection order",
    "C13": "the real binding code on a simulated script engine, seeded scripts and allocation failures, values against the native library",
    "C12": "seeded stalls of threads inside callbacks, progress of the others within a bounded number of steps",
}
na = []
checks = []
for l in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(l)
    if d["id"] in props.ALL:
        checks.append({"property": d["id"], "quick_cmd": "python3 check.py %s" % d["id"],
                       "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % d["id"],
                       "technique": TECH + T[d["id"]], "level": "exploration", "level_note": NOTE})
    else:
        na.append({"property": d["id"], "reason": d.get("not_applicable_reason") or
                   ("A pure numerical property of single-threaded deterministic computation: no schedule, fault, clock, I/O or history takes part, "
                    "so simulating these decides nothing about it; see DESIGN.md." if d["id"][0] == "N" else "No check yet.")})
m = {"version": 1, "setup_cmd": "python3 simbuild.py l,c l,c,prof c,py c,js", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
