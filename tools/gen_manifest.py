#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
MC = "explicit enumeration of program histories against an executable reference model, replayed on the real assembler"
EX = "bounded exhaustive exploration of the real code against an independent oracle"
T = {
 "A01": (EX, "exploration", "every instruction form x every operand value; operand spellings and positions on a product grid"),
 "A02": (EX, "exploration", "all values around every limit of every operand kind, directive and 32-bit arithmetic"),
 "A03": (MC, "model_checking", "every statement sequence up to the stated depth is a model history, replayed on the assembler"),
}
EXTRA = os.path.join(here, "tools", "manifest_table.json")
if os.path.exists(EXTRA):
    T.update({k: tuple(v) for k, v in json.load(open(EXTRA)).items()})
checks = []
na = []
for p in props:
    i = p["id"]
    if i in T:
        tech, level, note = T[i]
        checks.append({"property": i, "quick_cmd": f"bash check.sh {i} quick",
                       "thorough_cmd": f"bash check.sh {i} thorough",
                       "technique": tech, "level": level, "level_note": note})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "bash check.sh setup", "checks": checks, "not_applicable": na,
     "notes": "All checks are spaces of the wbmc explorer in harness/. Every check rebuilds the harness and /repo's crate. No hooks in /repo."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
