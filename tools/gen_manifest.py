#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json"""
import json, os, subprocess
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
NA = {
 "P23": "MapConfig::try_new and QueueConfig::try_new are pure functions of their arguments: no I/O, time, concurrency, crash or history for a simulation to control, so deterministic simulation with fault injection has nothing to decide there. (All ranges the other checks simulate pass through these constructors.)",
}
TODO = set(os.environ.get("TODO", "").split())
for t in TODO: NA[t] = "check under construction"
tech = "deterministic simulation with fault injection: seeded random histories, geometries, cache configurations and fault schedules on a simulated NOR flash, judged against an executable reference model; failures are minimised and written as replay files"
note = {
 "P20": "deterministic simulation of interrupt/task interleavings",
}
m = {
 "version": 1,
 "setup_cmd": "bash /verif/setup.sh",
 "checks": [dict(property=p, quick_cmd=f"bash /verif/check.sh {p} quick", thorough_cmd=f"bash /verif/check.sh {p} thorough",
   evidence_file=f"/verif/evidence/{p}.json", technique=tech, level="exploration",
   level_note=note.get(p, "seeded search, not exhaustive; a fixed number of runs per tier, every run decided by one seed")) for p in props if p not in NA],
 "not_applicable": [dict(property=p, reason=r) for p, r in NA.items()],
 "notes": "No hooks in /repo: the NorFlash trait, the Key/Value traits and critical-section's pluggable implementation are the seams. Replays: bash /verif/replay.sh <file>.",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
