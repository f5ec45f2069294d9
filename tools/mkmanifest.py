#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PENDING = set()
HOW = {
 "C01": "protocol reference automaton over faulty event histories",
 "C02": "twin run without the refused calls",
 "C03": "twin runs without and with more predictions",
 "C04": "twin rebuilt from the inputs in effect after each rollback",
 "C05": "twin that starts at the Down",
 "C06": "simulated caller buffers in every state, with twins",
 "C07": "simulated threads, seeded preemption at every library CFG edge, twins",
 "C08": "metamorphic twin in transformed units",
 "C09": "invariant over the recorded history",
 "C10": "invariant over the recorded history",
 "C11": "sanitised simulated runs with corrupted events",
 "C12": "invariant over the recorded history",
 "C13": "refinement of an executable reference model",
 "C14": "refinement of an executable reference model",
 "C15": "invariant over the recorded history",
 "C16": "twin that really ends the stroke",
 "C17": "refinement of an executable reference model",
 "C18": "refinement of an executable reference model",
 "C19": "failing allocation at seeded points, twins, leak accounting",
 "C20": "bounded liveness after the faults stop",
 "C21": "invariant over the recorded history",
}
NOTE = {
 "bit": "Bitwise comparison of two executions of the real library, so an alarm is always a real difference. Sampled: seeded search, not all histories. ",
 "ref": "Comparison with an independently written double-precision model; tolerances are derived from rounding-error bounds, and decisions the rounding could tip either way are accepted both ways and counted. Sampled: seeded search. ",
 "inv": "Invariant evaluated on every call of every simulated run. Sampled: seeded search, not all histories. ",
}
KIND = {k: "bit" for k in ("C02", "C03", "C04", "C05", "C06", "C07", "C16", "C19")}
KIND.update({k: "ref" for k in ("C08", "C13", "C14", "C17", "C18")})
NA = {
 "N01": "Pure functions of one argument: no schedule, clock, I/O, fault or history for a simulator to control. The parts reachable through Reset(params) are covered by C01.",
 "N02": "Pure formatting functions: no schedule, clock, I/O, fault or history for a simulator to control.",
 "N03": "Pure arithmetic operators: no schedule, clock, I/O, fault or history for a simulator to control; their use in the modeler is covered by C13, C14 and C17.",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i in NA or i in PENDING:
        continue
    checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i,
        thorough_cmd="python3 check.py %s --tier thorough" % i, evidence_file="evidence/%s.json" % i,
        technique="deterministic simulation with fault injection: " + HOW[i], level="exploration",
        level_note=NOTE[KIND.get(i, "inv")] + "Trusted: the simulator (sim/), the compiler, IEEE arithmetic on x86-64. The library runs unmodified; digitizer, transport, clock, client and allocator are simulated."))
na = [dict(property=k, reason=v) for k, v in NA.items()] + [dict(property=k, reason="Check under construction.") for k in sorted(PENDING)]
json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
    notes="No hooks in /repo: every seam used is the public API, the caller's buffers, operator new, and compiler instrumentation. `python3 check.py --replay FILE` replays a violation."),
    open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
