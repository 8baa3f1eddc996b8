#!/usr/bin/env python3
"""check.py <property>            run the check of one property (VERIF_SEED, VERIF_TIER)
   check.py --replay <file>       run a replay file again
   check.py --setup               build everything once and self-test the simulator
   check.py --determinism <n>     run n seeds of every property twice and compare the recorded histories"""
import json, os, sys, time, threading
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import simlib as L
from props import PROPS

VERIF = L.VERIF
REPLAYS = os.path.join(VERIF, "replays")
EVID = os.path.join(VERIF, "evidence")


def known():
    try:
        return json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]
    except FileNotFoundError:
        return []


def run_flavour(prop, cfg, part, seed, tier, st, lock, t0):
    """One sweep of one build flavour; fills st; returns a violation record or None."""
    flavour = part["flavour"]
    exe = L.build(flavour)
    st["build_s"] = round(st.get("build_s", 0) + time.time() - t0, 1)
    r = L.Runner(exe, flavour, part.get("run", prop), tier, part.get("cpu", 40))
    n, budget = (part["thorough"] if tier == "thorough" else part["quick"])
    viol = []

    def on(d):
        with lock:
            st["runs"] += 1
            st["verdicts"][d["verdict"]] = st["verdicts"].get(d["verdict"], 0) + 1
            if d["verdict"] == "discard":
                w = d["msg"][:60]
                st["discards"][w] = st["discards"].get(w, 0) + 1
            if d["verdict"] == "harness-error":
                st["harness"].append(d["msg"])
            if d["verdict"] == "violation":
                viol.append(d)
            st["simtime"] += d["simtime"]
            st["fsops"] += d["fsops"]
            for k, v in d["faults"].items():
                st["faults"][k] = st["faults"].get(k, 0) + v
            for k, v in d["probes"].items():
                st["probes"][k] = st["probes"].get(k, 0) + v
            if d["nontrivial"] and d["verdict"] == "ok":
                st["sigs"].add(d["sig"])
            if d["verdict"] == "ok":
                st["hashes"].add(d["hash"])
                if len(st["samples"]) < 4 and d["nontrivial"]:
                    st["samples"].append(d["seed"])
            if len(st["again"]) < 24 and d["verdict"] == "ok":
                st["again"].append((d["seed"], d["hash"]))
    tb = time.time()
    r.sweep(seed, n, budget, on, lambda: len(viol) >= 3 or len(st["harness"]) > 0)
    st["search_s"] += time.time() - tb
    return r, viol


def gate_and_report(prop, r, flavour, viol, tier, seed):
    """Reproduce, minimise, write the replay file."""
    v = sorted(viol, key=lambda d: len(d.get("choices") or [0] * 10**6))[0]
    a, b = r.seed(v["seed"]), r.seed(v["seed"])
    for x in (a, b):
        if not x or x["verdict"] != "violation" or x["cls"] != v["cls"] or x["hash"] != v["hash"]:
            # not the same history twice
            if prop == "C06":
                os.makedirs(REPLAYS, exist_ok=True)
                path = os.path.join(REPLAYS, f"{prop}-{v['seed']}.json")
                json.dump({"property": prop, "run": r.prop, "flavour": flavour, "tier": tier, "seed": v["seed"], "cls": "irreproducible",
                           "msg": "the same seed gives different histories: results depend on something that is not an input"}, open(path, "w"))
                return path, v, 0
            print(f"ERROR: seed {v['seed']} of {prop} does not reproduce ({v['cls']}: {v['msg']})")
            return None, v, 0
    mb = 20.0 if tier == "quick" else 90.0
    ch, evals = L.minimise(r, v["choices"], v["cls"], mb)
    m = r.choices([ch], full=True)[0]
    if not m or m["verdict"] != "violation" or m["cls"] != v["cls"]:
        ch = v["choices"]
        m = r.choices([ch], full=True)[0]
    m2 = r.choices([ch], full=True)[0]
    if not m or not m2 or m["verdict"] != "violation" or m2["hash"] != m["hash"] or m2["cls"] != m["cls"]:
        print(f"ERROR: replay of seed {v['seed']} of {prop} is not exact")
        return None, v, evals
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, f"{prop}-{v['seed']}.json")
    json.dump({"property": prop, "run": r.prop, "flavour": flavour, "tier": tier, "seed": v["seed"], "cls": m["cls"], "msg": m["msg"], "hash": m["hash"],
               "choices": ch, "choices_before_minimisation": len(v["choices"]), "events": m.get("events", [])}, open(path, "w"), indent=1)
    return path, m, evals


def check(prop):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    cfg = PROPS[prop]
    os.makedirs(EVID, exist_ok=True)
    st = dict(runs=0, verdicts={}, discards={}, harness=[], simtime=0.0, fsops=0, faults={}, probes={}, sigs=set(), hashes=set(), samples=[], again=[], search_s=0.0)
    lock = threading.Lock()
    rc = 0
    violations = []
    findings = []
    det = 0
    sample_dumps = []
    for part in cfg["parts"]:
        st["again"] = []
        r, viol = run_flavour(prop, cfg, part, seed, tier, st, lock, time.time())
        if st["harness"]:
            print("ERROR: harness:", st["harness"][0])
            return 2
        if viol:
            path, v, evals = gate_and_report(prop, r, part["flavour"], viol, tier, seed)
            if path is None:
                return 2
            violations.append({"class": v["cls"], "message": v["msg"], "seed": viol[0]["seed"], "replay": path, "minimiser_runs": evals})
            print(f"{prop}: {v['cls']}: {v['msg']}")
            print(f"VIOLATION property={prop} replay={path}")
            rc = 1
            break
        # the same seeds again, in other processes: identical histories
        again = st["again"][:: max(1, len(st["again"]) // 12)]
        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(L.NPROC) as ex:
            rs = list(ex.map(lambda s: r.seed(s[0]), again))
        for (s, h), d in zip(again, rs):
            det += 1
            if not d or d["hash"] != h:
                if prop == "C06":
                    os.makedirs(REPLAYS, exist_ok=True)
                    path = os.path.join(REPLAYS, f"{prop}-{s}.json")
                    json.dump({"property": prop, "run": r.prop, "flavour": part["flavour"], "tier": tier, "seed": s, "cls": "irreproducible", "msg": "the same seed gives different histories"}, open(path, "w"))
                    print(f"VIOLATION property={prop} replay={path}")
                    rc = 1
                    violations.append({"class": "irreproducible", "seed": s, "replay": path})
                    break
                print(f"ERROR: seed {s} of {prop} gave two different histories")
                return 2
        if rs and len(sample_dumps) < 3:
            sample_dumps.append({"seed": rs[0]["seed"], "events": rs[0].get("events", [])[:40]})
        # known findings: directed replays of their own
        for f in known():
            if f.get("property") == prop and f.get("status") == "known" and f.get("flavour", "plain") == part["flavour"]:
                if "probe" in f:
                    # recognised by the sweep itself: the behaviour matched exactly the recorded defect and nothing else
                    if st["probes"].get(f["probe"]):
                        print(f"KNOWN-FINDING: property={prop} {f['what']}")
                        findings.append(f["what"])
                    continue
                d = r.choices([f["choices"]], full=True)[0] if "run" not in f else L.Runner(r.exe, part["flavour"], f["run"], tier).choices([f["choices"]], full=True)[0]
                if d and d["verdict"] == "violation":
                    print(f"KNOWN-FINDING: property={prop} {f['what']}")
                    findings.append(f["what"])
        if rc:
            break
    wall = time.time() - t0
    rate = st["runs"] / max(st["search_s"], 1e-9) * 3600
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": cfg["level"], "wall_s": round(wall, 1),
        "coverage": {
            "evaluations": st["runs"], "distinct_nontrivial": len(st["sigs"]),
            "rule": cfg["rule"],
            "samples": sample_dumps or [{"seed": s} for s in st["samples"]] or [{"seed": seed}],
            "runs_per_hour": int(rate), "seeds_per_hour": int(rate), "simulated_time_s": round(st["simtime"], 2),
            "disk_operations": st["fsops"], "faults_injected": st["faults"], "probes": st["probes"],
            "distinct_histories": len(st["hashes"]), "verdicts": st["verdicts"], "discarded_runs": st["discards"],
            "determinism_reruns_identical": det,
            "real_code": "every translation unit of /repo/source except the VTK writer, driven through the public C interface",
            "simulated": cfg["stubs"],
            "build_s": st.get("build_s"),
        },
        "assumptions": cfg.get("assumptions", []),
        "violations": violations, "known_findings": findings,
    }
    tmp = os.path.join(EVID, prop + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(EVID, prop + ".json"))
    print(f"{prop}: {st['runs']} runs, {len(st['sigs'])} distinct schedules, {st['simtime']:.0f} simulated s, verdicts {st['verdicts']}, {wall:.0f} s")
    ok = st["verdicts"].get("ok", 0)
    if rc == 0 and ok < 5:
        print("ERROR: too few usable runs:", st["discards"])
        return 2
    return rc


def replay(path):
    d = json.load(open(path))
    exe = L.build(d["flavour"])
    r = L.Runner(exe, d["flavour"], d.get("run", d["property"]), d.get("tier", "quick"))
    if d["cls"] == "irreproducible":
        a, b = r.seed(d["seed"]), r.seed(d["seed"])
        bad = a["hash"] != b["hash"]
        print("hashes", a["hash"], b["hash"])
    else:
        m = r.choices([d["choices"]], full=True)[0]
        bad = m["verdict"] == "violation"
        for e in m.get("events", []):
            print("  ", e)
        print(m["verdict"], m["cls"], m["msg"], "(exact)" if m["hash"] == d.get("hash") else "(different history)")
    if bad:
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    return 0


def setup():
    t = time.time()
    for fl in sorted({p["flavour"] for c in PROPS.values() for p in c["parts"]}):
        exe = L.build(fl)
        print(f"built {fl}: {exe} ({time.time() - t:.0f} s)")
    return 0


def determinism(n):
    import concurrent.futures as cf
    bad = 0
    for prop, cfg in PROPS.items():
        for part in cfg["parts"]:
            exe = L.build(part["flavour"])
            r = L.Runner(exe, part["flavour"], part.get("run", prop), "quick", part.get("cpu", 40))
            got = {}
            lock = threading.Lock()

            def on(d):
                with lock:
                    got[d["seed"]] = d
            r.sweep(77, n, 600, on, lambda: False)
            with cf.ThreadPoolExecutor(3) as ex:
                rs = list(ex.map(r.seed, list(got)))
            k = sum(1 for d in rs if d["hash"] != got[d["seed"]]["hash"] or d["verdict"] != got[d["seed"]]["verdict"])
            bad += k
            print(f"{prop}/{part['flavour']}: {len(rs)} seeds twice, {k} different")
    return 1 if bad else 0


def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ["--replay"]:
            return replay(a[1])
        if a[:1] == ["--setup"]:
            return setup()
        if a[:1] == ["--determinism"]:
            return determinism(int(a[1]))
        return check(a[0])
    except L.BuildError as e:
        print("ERROR: build failed:\n" + str(e))
        return 3


sys.exit(main())
