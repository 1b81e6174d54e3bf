#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and tools/checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from checks import CHECKS
PURE = "A pure function of its arguments: no time, scheduling, I/O, fault or second party takes part, so there is nothing to simulate or inject. "
NA = {
    "N01": PURE + "(View arithmetic; memory bounds under faults are checked where views are used: P04, U01, L02.)",
    "N02": PURE,
    "N03": PURE + "(Rasterisation into a caller's array.)",
    "N04": PURE,
    "N05": PURE + "(Table lookup in constant data.)",
    "N06": PURE + "(Overflow of the fixed buffer, where formatting meets a fault, is L02.)",
    "N07": PURE + "(The converter's behaviour under I/O faults, interruption and failing allocations is F01 to F03.)",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(
            property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {i}",
            evidence_file=f"evidence/{i}.json", technique="deterministic simulation with fault injection, seeded search" + (", " + c["note"] if c["note"] else ""),
            level="exploration",
            level_note=("Seeded search over schedules and faults in a simulator that runs the library's own code; finds violations with a minimised, exactly replayable trace, proves nothing about runs not explored. Assumes: "
                        + " ".join(c["assumptions"]))))
    else:
        na.append(dict(property=i, reason=NA.get(i, "The simulation for it is not built yet.")))
m = dict(version=1, setup_cmd="python3 tools/simbuild.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the seams are the vendor APIs, the C library and the compiler's memory access instrumentation. `python3 check.py replay FILE` replays a violation.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
