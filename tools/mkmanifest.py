#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the notes below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(root, "tools", "notes.json")))
checks, na = [], []
for p in props:
    n = NOTES[p["id"]]
    if "na" in n:
        na.append({"property": p["id"], "reason": n["na"]})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "./run.sh check " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough ./run.sh check " + p["id"],
        "technique": "deterministic simulation with fault injection: " + n["technique"],
        "level": "exploration",
        "level_note": n["note"] + " " + NOTES["common"],
    })
m = {
    "version": 1,
    "setup_cmd": "./run.sh build",
    "hooks": {"guard": "none: no hook in /repo; the build overlay of the checks instruments copies of the sources",
              "enable": "run.sh builds webrpc from /repo's working tree through 'go build -overlay' (dst/build.go), with the Go runtime, os, net and os/exec patched in the same overlay",
              "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "One simulator decides all properties; see DESIGN.md. replay: ./run.sh replay FILE. Repaired and known findings: known-findings.txt.",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
