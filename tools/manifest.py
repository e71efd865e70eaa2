#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of implemented checks (run after building)."""
import json, os, subprocess, sys
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
impl = subprocess.check_output([os.path.join(here, "target/release/obmc"), "list"], text=True).split()
impl += subprocess.check_output([os.path.join(here, "target/cl/release/obcl"), "list"], text=True).split()
impl += subprocess.check_output([os.path.join(here, "target/cx/release/obcx"), "list"], text=True).split()
NOT = {}
nf = os.path.join(here, "tools/not_applicable.json")
if os.path.exists(nf):
    NOT = json.load(open(nf))
checks = []
for p in props:
    i = p["id"]
    if i not in impl:
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"./run.sh {i} quick",
        "thorough_cmd": f"./run.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "explicit-state model checking: bounded exhaustive exploration of the compiled program, every transition compared with a reference model",
        "level": "model_checking",
        "level_note": "all executions within the stated alphabet and depth of the real code; states identified by a 128-bit hash of behaviour-relevant content",
    })
m = {
    "version": 1,
    "setup_cmd": "./run.sh --build",
    "hooks": {
        "guard": "cargo feature verif-hooks",
        "enable": "cx/client/Cargo.toml compiles /repo/lib/client/src with the feature verif-hooks",
        "source_commits": ["a6f27ea"],
    },
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in NOT.items()],
    "notes": "run.sh rebuilds from /repo's working tree; see DESIGN.md",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [p["id"] for p in props if p["id"] not in impl and p["id"] not in NOT], "open")
