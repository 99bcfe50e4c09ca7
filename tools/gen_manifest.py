#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
NA = {"C18": "The procedural macros run at compile time, in the compiler, as pure functions of tokens: no concurrency, time, I/O or "
             "peer on which their result could depend, so there is nothing for a simulator to schedule or to make fail."}
checks = []
for p in props:
    i = p["id"]
    if i in NA:
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s" % i,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "deterministic simulation with fault injection (seeded schedules, inputs and faults; history judged against a reference model)",
        "level": "exploration",
        "level_note": "The real server, tokio, mio and TLS library run in one process on a simulated kernel; held on every explored seed. "
                      "Assumes the simulated kernel behaves like Linux; does not cover schedules, inputs and faults no seed reached.",
    })
m = {
    "version": 1,
    "setup_cmd": "python3 check.py setup",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
    "notes": "No hooks in /repo: every seam is at the libc boundary of the simulator binary (sim/src/hooks.rs). Commits in /repo are fixes only, "
             "listed in known-findings.txt.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
