#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = []
for p, c in sorted(PROPS.items()):
    checks.append(dict(property=p, quick_cmd=f"python3 check.py {p}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {p}", evidence_file=f"evidence/{p}.json",
                       technique="deterministic simulation: " + c["technique"], level=c["level"], level_note=c["note"]))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks,
         not_applicable=[dict(property=p, reason=r) for p, r in sorted(NOT_APPLICABLE.items())],
         notes="No hooks in /repo: the seams are libc's fopen/read/write/lseek/close/clock_gettime, the allocator and compiler-inserted yield points, all owned by the simulator binary. "
               "Commits in /repo are defect repairs only (see known_findings.json).")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
miss = [i for i in ids if i not in PROPS and i not in NOT_APPLICABLE]
print("checks", len(checks), "not covered:", miss)
