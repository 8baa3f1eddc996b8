#!/usr/bin/env python3
"""trybug.py ID...|all [--thorough]: runs the quick check of the property each seeded change breaks against a scratch clone with the change."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith("-")]
if ids == ["all"]: ids = sorted(os.listdir(V + "/seeded"))
d = os.environ.get("TRYDIR", "/tmp/seedrepo/try")
def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
if not os.path.isdir(d): sh(f"mkdir -p /tmp/seedrepo; git clone -q /repo {d}")
for i in ids:
    meta = json.load(open(f"{V}/seeded/{i}/meta.json"))
    sh(f"git -C {d} fetch -q origin; git -C {d} reset -q --hard origin/HEAD")
    r = sh(f"git -C {d} apply {V}/seeded/{i}/patch.diff")
    if r.returncode: print(i, "does not apply", r.stdout); continue
    env = dict(os.environ, MDSIM_REPO=d, VERIF_SEED="1", VERIF_TIER="quick")
    r = sh(f"python3 check.py {meta['property']}", cwd=V, env=env)
    v = [l for l in r.stdout.splitlines() if "VIOLATION" in l or l.startswith("  ")]
    print(i, meta["property"], "CAUGHT" if r.returncode == 1 else f"MISSED rc={r.returncode}", "\n    ".join(v[:4])[:600] if r.returncode == 1 else r.stdout[-300:], flush=True)
