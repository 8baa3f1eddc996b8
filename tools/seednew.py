#!/usr/bin/env python3
"""seednew.py ID PROPERTY: makes seeded/ID from the changes present in /tmp/seedrepo/edit (a clone of /repo) and the demo.cpp given on stdin.
Environment NEEDS and BREAKS fill meta.json."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
i, p = sys.argv[1:3]
d = f"{V}/seeded/{i}"; os.makedirs(d, exist_ok=True)
diff = subprocess.run("git -C /tmp/seedrepo/edit diff", shell=True, text=True, stdout=subprocess.PIPE).stdout
assert diff.strip(), "no change"
open(d + "/patch.diff", "w").write(diff)
for f in ("demo.sh", "kit.hpp"): shutil.copy(f"{V}/tools/seedkit/{f}", d)
open(d + "/demo.cpp", "w").write('#include "kit.hpp"\n' + sys.stdin.read())
json.dump({"property": p, "needs": os.environ["NEEDS"], "what_it_breaks": os.environ["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
