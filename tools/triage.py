#!/usr/bin/env python3
"""Developer tool: triage.py PROP [count] [base] - crashing seeds of the san flavour grouped by the first library frame."""
import sys, os, re, collections, threading, subprocess, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import simlib as L
prop = sys.argv[1]; n = int(sys.argv[2]); base = int(sys.argv[3]) if len(sys.argv) > 3 else 1
exe = L.build("san")
r = L.Runner(exe, "san", prop, "quick")
bad = []; lock = threading.Lock(); tot = [0]
def on(d):
    with lock:
        tot[0] += 1
        if d["verdict"] not in ("ok", "discard"): bad.append((d["seed"], d["cls"], d["msg"]))
r.sweep(base, n, 1200, on, lambda: False)
def look(b):
    s, cls, msg = b
    if cls != "crash": return (cls, msg[:150]), s
    e = dict(os.environ, SIM_STDERR="1", ASAN_OPTIONS="exitcode=77:detect_leaks=0:allocator_may_return_null=1:handle_abort=1", UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=77")
    p = subprocess.run([exe, "--prop", prop, "--seed", str(s)], env=e, capture_output=True, errors="replace")
    err = p.stderr
    kind = re.search(r"(ERROR: AddressSanitizer: \S+|runtime error: .*|terminate called.*)", err)
    fr = [f for f in re.findall(r"#\d+ 0x\w+ in (.*)", err) if "/source/" in f]
    i = err.find("#0 ")
    fr = [re.sub(r".*/source/", "", f) for f in fr[:3]]
    return (kind.group(1)[:90] if kind else "?", " < ".join(fr)), s
g = collections.defaultdict(list)
with cf.ThreadPoolExecutor(8) as ex:
    for k, s in ex.map(look, bad): g[k].append(s)
print(tot[0], "runs,", len(bad), "bad")
for k, v in sorted(g.items(), key=lambda a: -len(a[1])): print(len(v), k, v[:3])
