#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties and the checks that exist."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(V, "lib"))
import checks, notes
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="bash /verif/setup.sh",
         checks=[], not_applicable=[],
         notes="All checks: TLA+ specifications checked with TLC, bound to /repo by trace validation of "
               "recorded public API calls (and replay of TLC-generated behaviours). See DESIGN.md. "
               "No hooks in /repo were needed.")
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        t, n = notes.NOTES[i]
        m["checks"].append(dict(property=i, quick_cmd=f"python3 /verif/check.py {i} quick",
                                thorough_cmd=f"python3 /verif/check.py {i} thorough",
                                technique=t, level="model_checking", level_note=n))
    else:
        m["not_applicable"].append(dict(property=i, reason=notes.NOT.get(i, "check not built yet")))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
