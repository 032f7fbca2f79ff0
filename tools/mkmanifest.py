#!/usr/bin/env python3
"""Writes MANIFEST.json out of properties.jsonl and the checks there are."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/checks", V + "/lib"]
sys.dont_write_bytecode = True
import run

TRACE = ("the specification is model-checked exhaustively within small bounds; conformance of the code is by trace "
         "validation with TLC over a seeded, family-biased set of behaviours, so it is as strong as that set; trusts "
         "TLC, the observation harness and ASan")
NOTE = {p: TRACE for p in run.CHECKS}
NA = {}
PENDING = "No check yet: its specification is being written."
checks, na = [], []
for line in open(V + "/properties.jsonl"):
    p = json.loads(line)["id"]
    if p in run.CHECKS:
        checks.append(dict(property=p, quick_cmd="python3 checks/run.py " + p,
                           thorough_cmd="VERIF_TIER=thorough python3 checks/run.py " + p,
                           technique=run.TECH.get(p, "TLA+ specification, TLC model checking, replay of TLC behaviours and TLC trace validation of recorded traces"),
                           level="model_checking", level_note=run.NOTE.get(p, TRACE)))
    else:
        na.append(dict(property=p, reason=NA.get(p, PENDING)))
m = dict(version=1, setup_cmd="true", hooks=dict(guard="none", enable="no hooks are needed: harnesses compile /repo's sources and wrap libc calls at link time", source_commits=[]),
         checks=checks, not_applicable=na)
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
