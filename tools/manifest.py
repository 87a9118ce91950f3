#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below: python3 tools/manifest.py"""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
CLUSTER = "property-based testing: generated cluster histories (network, crash and Byzantine schedules) over real nodes, judged by a history invariant; shrinking to a replay file"
CHECKS = {
 "C01": (CLUSTER, "Random exploration of clusters of 1 to 7 validators with mock cryptography and virtual time; trusts the simulated network, keys and application of the harness."),
 "C16": (CLUSTER, "As C01; liveness is judged by a generous bound in virtual time after the faults cease."),
}
SOLO = "property-based testing: one real node in generated histories (messages, failures, crashes, virtual time), every interface event judged by an independent reference monitor; shrinking to a replay file"
NOTE = "Random exploration, not exhaustive; 1 to 7 validators, mock cryptography, virtual time; trusts the monitor and the simulated environment of the harness."
for i in "02 03 04 05 06 07 09 10 14 15 17 18 19 21".split():
    CHECKS["C" + i] = (SOLO, NOTE)
CHECKS["C12"] = ("property-based testing and mutation fuzzing: generated values of every wire, log and serde type with one-field variants and mutated encodings, judged by round-trip and injectivity oracles; shrinking to a replay file",
    "Random exploration; trusts the block codec of the harness and rlp/serde_json.")
CHECKS["C08"] = ("property-based testing, differential (metamorphic): each generated history of one real node is run with and without inserted invalid, stale and duplicate messages and everything the node does is compared; shrinking to a replay file",
    "Random exploration; histories whose own runs differ among schedules are compared as outcome sets; inserted messages are for current or earlier heights.")
CHECKS["C11"] = ("property-based testing: generated validator lists, heights, rounds and bitmaps against leader-election invariants and a reference rotation, and generated node histories whose proposals and votes are compared with the public leader function; built for both leader modes",
    "Random exploration; the list is not empty and the sum of the propose weights is positive.")
CHECKS["C13"] = ("property-based testing and message fuzzing: one real node in generated histories with messages arbitrary in every field and every kind of failure; oracle: no panic, no spin, and the node follows a well-behaved quorum to the next commit; shrinking to a replay file", NOTE)
CHECKS["C20"] = ("property-based testing: one real node in generated histories stopped at generated moments; oracle: the run returns and nothing is done afterwards; shrinking to a replay file", NOTE)
exec(open(os.path.join(here, "tools", "claims.py")).read()) if os.path.exists(os.path.join(here, "tools", "claims.py")) else None
m = {
 "version": 1,
 "setup_cmd": "bash /verif/build.sh rotation && bash /verif/build.sh random",
 "checks": [], "not_applicable": [],
 "notes": "Known findings and repaired defects: known_findings.txt. Replay a failure: bash replay.sh FILE.",
}
for p in props:
    i = p["id"]
    if i in CHECKS:
        t, n = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": f"bash check.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {i}",
            "technique": t, "level": "exploration", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": "not claimed yet: its check is still being built"})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed")
