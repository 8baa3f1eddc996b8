#!/usr/bin/env python3
"""seed.py check ID...   build a scratch copy with the change, run the demo on both trees (quick confirmation;
vcheck --bug ID does the full one).  The scratch copies live in /tmp/seedrepo and are reused; seed.py clean removes them."""
import os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base, bad = "/tmp/seedrepo/base", "/tmp/seedrepo/bad"
def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def prep(d):
    if not os.path.isdir(d):
        os.makedirs("/tmp/seedrepo", exist_ok=True)
        sh(f"git -C /repo worktree prune; git clone -q /repo {d}")
    sh(f"git -C {d} fetch -q origin && git -C {d} checkout -q -f origin/HEAD -- . ; git -C {d} reset -q --hard origin/HEAD")
def build(d):
    if not os.path.exists(d + "/_build/build.ninja"):
        r = sh(f"cmake -S {d} -B {d}/_build -G Ninja -DCMAKE_BUILD_TYPE=Release -DBUILD_TESTING=OFF -DCMAKE_POLICY_VERSION_MINIMUM=3.5 -DEXTERNAL_EIGEN=OFF -DUSE_VTK=OFF -DFORTRAN_WRAPPER=OFF -DPYTHON_WRAPPER=OFF")
        if r.returncode: print(r.stdout[-3000:]); return False
    r = sh(f"ninja -C {d}/_build")
    if r.returncode: print(r.stdout[-3000:]); return False
    return True
if sys.argv[1] == "clean": shutil.rmtree("/tmp/seedrepo", ignore_errors=True); sys.exit()
prep(base); assert build(base)
for i in sys.argv[2:]:
    s = f"{V}/seeded/{i}"
    prep(bad)
    r = sh(f"git -C {bad} apply {s}/patch.diff")
    if r.returncode: print(i, "patch does not apply", r.stdout); continue
    if not build(bad): print(i, "does not build"); continue
    a = sh(f"bash {s}/demo.sh", cwd=base); b = sh(f"bash {s}/demo.sh", cwd=bad)
    print(i, "base", a.returncode, a.stdout.strip()[-200:], "| bad", b.returncode, b.stdout.strip()[-200:], "OK" if a.returncode == 0 and b.returncode not in (0, 2) else "<<<<<< NOT CONFIRMED")
