#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl (run after changing either)."""
import json
NA = {
    "P30": "src/money_utils.cc is a pure function of two values that nothing in the library calls: no schedule, time, fault or history "
           "influences it, so a simulator has nothing to decide; seeded inputs alone would be plain random testing, a different technique",
}
LATER = {}
NOTE = ("Seeded search: a quiet check means that no run of this search violated the property, not a proof. The library's own sources run "
        "unmodified; threads, locks, futures, clocks, heap, the server, the network and the timer are simulated. Trusts the simulator "
        "(sim/rt.cc), the oracles (sim/), gcc's thread-sanitizer instrumentation as preemption points, and sequential consistency.")
EXTRA = {
    "P17": " Races are decided by a vector-clock happens-before detector over the same simulated executions.",
    "P22": " libcurl is replaced by a simulated HTTP client and server behind the same C API; the transport's own source runs unmodified.",
    "P23": " The container is driven with a simulated clock against an executable reference model written from its documented contract.",
    "P31": " The samples go through the helper in the simulated caller threads and are judged in what finally reaches the simulated server.",
}
TECH = "deterministic simulation with fault injection: seeded search over schedules and faults, history judged against an executable model"
props = [json.loads(l) for l in open("properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 simlib.py simctl simhttp simlru", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the simulator interposes at link level. See DESIGN.md. Known and fixed defects: known_findings.json."}
for p in props:
    i = p["id"]
    if i in NA or i in LATER:
        m["not_applicable"].append({"property": i, "reason": NA.get(i) or LATER[i]})
        continue
    m["checks"].append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                        "evidence_file": "evidence/%s.json" % i, "technique": TECH, "level": "exploration", "level_note": NOTE + EXTRA.get(i, "")})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
