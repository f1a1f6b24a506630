#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property that has a specification in specs.rs."""
import json, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
specs = re.findall(r'spec\(\s*"(P\d+)"', open(os.path.join(root, "sim/harness/src/specs.rs")).read())
FAULT = {"P15"}
NOTE = ("Seeded search over schedules, message delays, faults and inputs, running the repository's real code on simulated "
        "ranks in one process; no proof. Trusts the stand-ins for MPI, bevy, HDF5 and diman described in DESIGN.md.")
m = {
    "version": 1,
    "setup_cmd": "./build.sh",
    "hooks": {
        "guard": "--cfg subsweep_verif",
        "enable": "sim/.cargo/config.toml sets rustflags = [\"--cfg\", \"subsweep_verif\"]; build.sh compiles /repo as a path dependency with it",
        "source_commits": open(os.path.join(root, "tools/hook_commit")).read().split(),
    },
    "checks": [{
        "property": p,
        "quick_cmd": f"./check.sh {p}",
        "thorough_cmd": f"./check.sh {p} --thorough",
        "technique": "deterministic simulation with fault injection (seeded search over schedules, faults and inputs)",
        "level": "exploration",
        "level_note": NOTE,
    } for p in props if p in specs],
    "not_applicable": [{"property": p, "reason": "No check built yet."} for p in props if p not in specs],
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
