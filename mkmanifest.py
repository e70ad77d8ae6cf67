#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = {"C18": "Compile-time metafunctions: types are computed by the compiler. There is no execution, schedule, time, I/O, allocation or failure a simulator could control or inject into; the runtime behaviour of the compile-time operands that do meet faults (mixing them with runtime operands, converting and evaluating them) is decided under C08 and C09."}
SCHED = "Seeded interleavings of simulated threads at every instrumented memory access, happens-before race detection over library accesses, results compared with sequential execution. Samples schedules; does not enumerate them."
FAULT = "Seeded scenarios; for the faulted operations the failing allocation or callback index sweeps over consecutive positions, so every failure point of those operations up to the stated bound is visited. Scenarios themselves are sampled."
GEN = "Seeded scenarios with injected allocation, callback and stream failures, compared operation by operation with an executable reference model. Samples inputs and fault sequences; a clean run is evidence, not proof."
TRUST = " Trusts the reference model (sim/model.cpp), gcc's access instrumentation and the simulated heap; code inside libstdc++.so is not instrumented."
checks = []
for p in props:
    i = p["id"]
    if i in NA: continue
    lvl = "fault_enumeration" if i in ("C02", "C04") else "exploration"
    note = (SCHED if i in ("C16", "C17") else FAULT if i in ("C02", "C04") else GEN) + TRUST
    tech = "deterministic simulation: seeded thread schedules" + (" and faults" if i == "C17" else "") + ", race detection, sequential reference" if i in ("C16", "C17") else "deterministic simulation with fault injection: seeded histories on a simulated heap with failing allocations, callbacks and streams, reference model"
    checks.append({"property": i, "quick_cmd": "python3 check.py run " + i, "thorough_cmd": "python3 check.py run " + i + " --tier thorough", "evidence_file": "evidence/" + i + ".json", "technique": tech, "level": lvl, "level_note": note})
m = {"version": 1, "setup_cmd": "python3 check.py build", "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks in /repo: the seams are global operator new, virtual interfaces, streams and compiler instrumentation of the headers. Replay a violation with: python3 check.py replay <file>."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
