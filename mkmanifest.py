#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the check modules (run by hand, output committed)."""
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    path = os.path.join(here, "mc", "checks", i.lower() + ".py")
    if not os.path.exists(path):
        na.append({"property": i, "reason": "check not built yet"})
        continue
    ns = {}
    src = open(path).read()
    level = src.split('LEVEL = "')[1].split('"')[0]
    tech = src.split('TECHNIQUE = "')[1].split('"')[0] if "TECHNIQUE" in src else "explicit-state model checking of the implementation"
    note = src.split('NOTE = "')[1].split('"\n')[0] if "\nNOTE = " in src else ""
    checks.append(
        {
            "property": i,
            "quick_cmd": f"./check {i} quick",
            "thorough_cmd": f"./check {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": tech,
            "level": level,
            "level_note": note or "see DESIGN.md",
        }
    )
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: the checks drive the unmodified code. Each command explores on 8 worker processes.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
