#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the checks that exist."""
import ast
import json
import os
import subprocess

here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in log if l.split(" ", 1)[1].startswith("verif:")]
checks, missing = [], []
for p in props:
    path = os.path.join(here, "qv", "checks", p["id"].lower() + ".py")
    if not os.path.exists(path):
        missing.append({"property": p["id"], "reason": "its check is not built yet"})
        continue
    consts = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", None) in ("LEVEL", "TECHNIQUE", "NOTE"):
            consts[node.targets[0].id] = ast.literal_eval(node.value)
    checks.append({
        "property": p["id"],
        "quick_cmd": f"./check {p['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check {p['id']}",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": consts["TECHNIQUE"],
        "level": consts["LEVEL"],
        "level_note": consts["NOTE"],
    })
manifest = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {"guard": "cfg(qlc_verif)", "enable": "RUSTFLAGS='--cfg qlc_verif' cargo build", "source_commits": hooks},
    "checks": checks,
    "not_applicable": missing,
    "notes": "Every check builds /repo's current tree into /verif/.build and observes the real program; see DESIGN.md.",
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(missing), "missing")
