#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
NA = {"C23": "generator, fmap, ptr_tag and scope_guard are single-threaded pure functions of their input: there is no schedule, clock, fault or interleaving for them to depend on, so deterministic simulation cannot decide them."}
checks = []
for i in ids:
    if i in PROPS:
        checks.append({"property": i, "quick_cmd": "python3 tools/check.py %s" % i, "thorough_cmd": "python3 tools/check.py %s --thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "deterministic simulation: seeded search over thread schedules, weak-memory reads, clock and fault injection",
                       "level": "exploration",
                       "level_note": PROPS[i].get("note", "Evidence from sampled executions of the real headers under a simulated scheduler, clock, allocator and memory checker; the oracle is checked during and after every run. Trusts the simulator runtime (sim/rt.cpp), GCC's TSan instrumentation and the scenario's model.")})
    elif i not in NA:
        NA[i] = "no check built yet"
json.dump({"version": 1, "setup_cmd": "python3 tools/check.py C03 --build-only", "hooks": {"guard": "none", "enable": "No hooks in /repo: every nondeterminism seam is below the pthread, libc and compiler-instrumentation interfaces.", "source_commits": []},
           "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
           "notes": "See DESIGN.md. Replay a violation with: python3 tools/check.py <ID> --replay <path>."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
