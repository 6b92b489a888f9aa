#!/usr/bin/env python3
"""Writes MANIFEST.json. Properties without an entry in NOTES become not_applicable (not built yet)."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENUM = "bounded exhaustive enumeration of executions of the real program, each compared with a reference model"
REST = " Nothing outside the stated bounds and alphabets is covered; the reference model and the terminal emulation are trusted."
NOTES = json.load(open(os.path.join(root, "tools", "manifest_notes.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in NOTES:
        n = NOTES[i]
        checks.append({
            "property": i,
            "quick_cmd": f"./run.sh check {i} quick",
            "thorough_cmd": f"./run.sh check {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": n.get("technique", "explicit-state model checking: " + ENUM),
            "level": n.get("level", "model_checking"),
            "level_note": n["note"] + REST,
        })
    else:
        na.append({"property": i, "reason": "the check is still being built"})
m = {
    "version": 1,
    "setup_cmd": "./run.sh build",
    "hooks": {
        "guard": "cfg(bcalc_verif)",
        "enable": "mc/.cargo/config.toml passes --cfg bcalc_verif in rustflags; mc depends on /repo by path",
        "source_commits": ["8715347"],
    },
    "checks": checks,
    "not_applicable": na,
    "notes": "run.sh rebuilds the harness and bcalc from /repo's working tree whenever their contents changed.",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
