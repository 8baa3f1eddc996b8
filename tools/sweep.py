#!/usr/bin/env python3
"""Developer tool: sweep.py PROP [count] [base] [flavour] - summary of verdicts, no gating."""
import sys, os, collections, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import simlib as L
prop = sys.argv[1]; n = int(sys.argv[2]) if len(sys.argv) > 2 else 200; base = int(sys.argv[3]) if len(sys.argv) > 3 else 1
fl = sys.argv[4] if len(sys.argv) > 4 else "plain"
tier = os.environ.get("VERIF_TIER", "quick")
try: exe = L.build(fl)
except L.BuildError as e: print(e); sys.exit(1)
r = L.Runner(exe, fl, prop, tier)
c = collections.Counter(); ex = collections.defaultdict(list); fa = collections.Counter(); pr = collections.Counter(); sigs=set(); top=[]
lock = threading.Lock()
t0 = time.time()
def on(d):
    with lock:
        k = (d["verdict"], d["cls"], d["msg"][:int(os.environ.get("W","70"))] if d["verdict"] != "ok" else "")
        c[k] += 1
        if len(ex[k]) < 4: ex[k].append(d["seed"])
        for a, b in d["faults"].items(): fa[a] += b
        for a, b in d["probes"].items(): pr[a] += b
        sigs.add(d["sig"]); top.append((d.get('cpu',99),d['seed']))

r.sweep(base, n, 600, on, lambda: False)
for k, v in c.most_common(40): print(v, k, ex[k] if k[0] != "ok" else "")
print("faults", str(dict(fa))[:int(os.environ.get("FA","1500"))]); print("probes", dict(pr)); print("distinct", len(sigs), "%.1f s" % (time.time() - t0))
print('cpu', sorted(top)[-3:])
