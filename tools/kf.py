#!/usr/bin/env python3
"""kf.py PROP COMMIT 'what failed' : record a repaired defect in known_findings.json (development tool)"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
prop, commit, what = sys.argv[1:4]
k = next(k for k in d if isinstance(d[k], list))
d[k].append(dict(property=prop, status="fixed", commit=commit, what=what, entry=f"fixed: property={prop} {commit} {what}"))
open(p, "w").write(json.dumps(d, indent=1))
