"""Build /repo + simulator, run seeds on all cores, gate, minimise, report.  Used by check.py."""
import concurrent.futures as cf
import glob, hashlib, json, os, re, subprocess, sys, sysconfig, tempfile, threading, time, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MDSIM_REPO", "/repo")
SRC = os.path.join(REPO, "source")
PYDIR = os.path.join(REPO, "wrappers", "python")
BUILD = os.path.join(VERIF, "build")
SIM = os.path.join(VERIF, "sim")
NPROC = int(os.environ.get("MDSIM_JOBS", os.cpu_count() or 8))

FLAVOURS = {
    # library flags, harness flags, link flags
    "plain": (["-O1"], ["-O1"], []),
    "san": (["-O1", "-g1", "-fsanitize=address,bounds,null,vptr,object-size,integer-divide-by-zero,unreachable,return,enum,bool",
             "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
            ["-O1", "-g1", "-DSIM_ASAN", "-fsanitize=address"], ["-fsanitize=address,undefined"]),
    "py": (["-O1"], ["-O1"], ["-lpython%d.%d" % sys.version_info[:2]]),  # a host in Python
    "f": (["-O1"], ["-O1"], ["-lgfortran"]),  # a host in Fortran
    "sched": (["-O1", "-fsanitize-coverage=trace-pc"], ["-O1", "-DSIM_SCHED"], []),
}
SAN_ENV = {"ASAN_OPTIONS": "exitcode=77:detect_leaks=0:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0:alloc_dealloc_mismatch=1:max_allocation_size_mb=2048:symbolize=0:hard_rss_limit_mb=3000",
           "UBSAN_OPTIONS": "exitcode=77:symbolize=0"}


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def file_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()


def lib_sources():
    out = []
    for p in glob.glob(os.path.join(SRC, "**", "*.cpp"), recursive=True) + glob.glob(os.path.join(SRC, "**", "*.c"), recursive=True):
        r = os.path.relpath(p, SRC)
        if r.startswith("Eigen") or os.path.basename(r) == "VTK_Util.cpp":
            continue
        out.append(p)
    return sorted(out)


def headers(d):
    out = []
    for root, dirs, files in os.walk(d):
        if "Eigen" in dirs:
            dirs.remove("Eigen")
        for f in files:
            if f.endswith((".h", ".hpp", ".in", ".ipp", ".inl", ".tpp")):
                out.append(os.path.join(root, f))
    return sorted(out)


def version():
    try:
        t = open(os.path.join(REPO, "CMakeLists.txt")).read()
        ma = re.search(r"MOORDYN_MAJOR_VERSION\s+(\d+)", t)
        mi = re.search(r"MOORDYN_MINOR_VERSION\s+(\d+)", t)
        return (ma.group(1), mi.group(1))
    except Exception:
        return ("2", "3")


def build(flavour, log=None):
    """Returns the path of the simulator binary for the current /repo tree."""
    libf, base_harf, linkf = FLAVOURS[flavour]
    os.makedirs(BUILD, exist_ok=True)
    cfg = os.path.join(BUILD, "cfg")
    os.makedirs(cfg, exist_ok=True)
    ma, mi = version()
    c = f'''#ifndef __MOORDYN_PLATFORM_H__
#define __MOORDYN_PLATFORM_H__
#define MOORDYN_VERSION {ma}.{mi}
#define MOORDYN_VERSION_STRING "{ma}.{mi}"
#endif
'''
    cp = os.path.join(cfg, "Config.h")
    if not os.path.exists(cp) or open(cp).read() != c:
        tmp = cp + f".{os.getpid()}"
        open(tmp, "w").write(c)
        os.replace(tmp, cp)
    srcs = lib_sources()
    hh = file_hash(headers(SRC)) + hashlib.sha256(c.encode()).hexdigest()
    sh_h = file_hash(glob.glob(os.path.join(SIM, "*.hpp")))
    odir = os.path.join(BUILD, "obj-" + ("plain" if flavour in ("py", "f") else flavour))
    os.makedirs(odir, exist_ok=True)
    jobs, objs = [], []
    common = ["g++", "-std=c++17", "-DNDEBUG", "-DMoorDyn_EXPORTS", "-DMOORDYN_PATCH_VERSION=0", f"-DMOORDYN_MAJOR_VERSION={ma}", f"-DMOORDYN_MINOR_VERSION={mi}", "-fno-strict-aliasing", "-ffp-contract=off", "-w", "-I", cfg, "-I", SRC,
              "-I", os.path.join(SRC, "Util"), "-I", os.path.join(SRC, "Waves")]
    pyinc = ["-I", sysconfig.get_paths()["include"]]
    if flavour == "py":
        s = os.path.join(PYDIR, "cmoordyn.cpp")
        k = hashlib.sha256((hh + file_hash([s]) + " ".join(libf + common + pyinc)).encode()).hexdigest()[:20]
        o = os.path.join(odir, "py_cmoordyn-" + k + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((os.path.getsize(s), common + libf + pyinc + ["-c", s, "-o"], o))
    if flavour == "f":
        fs = [os.path.join(REPO, "wrappers", "fortran", "MoorDyn.f90"), os.path.join(SIM, "fhost.f90")]
        k = hashlib.sha256(file_hash(fs).encode()).hexdigest()[:20]
        d = os.path.join(odir, "fortran-" + k)
        o = os.path.join(d, "hosts.o")
        objs.append(o)
        if not os.path.exists(o):
            tmp = d + f".{os.getpid()}.tmp"
            os.makedirs(tmp, exist_ok=True)
            r = sh(["gfortran", "-O1", "-w", "-J", tmp, "-c", fs[0], "-o", os.path.join(tmp, "m.o")])
            if not r.returncode:
                r = sh(["gfortran", "-O1", "-w", "-J", tmp, "-c", fs[1], "-o", os.path.join(tmp, "h.o")])
            if not r.returncode:
                r = sh(["ld", "-r", "-o", os.path.join(tmp, "hosts.o"), os.path.join(tmp, "m.o"), os.path.join(tmp, "h.o")])
            if r.returncode:
                raise BuildError(r.stdout[-4000:])
            shutil.rmtree(d, ignore_errors=True)
            os.replace(tmp, d)
    for s in srcs:
        k = hashlib.sha256((hh + file_hash([s]) + " ".join(libf) + " ".join(common)).encode()).hexdigest()[:20]
        o = os.path.join(odir, re.sub(r"[^A-Za-z0-9]", "_", os.path.relpath(s, SRC)) + "-" + k + ".o")
        objs.append(o)
        if not os.path.exists(o):
            lang = [] if s.endswith(".cpp") else ["-x", "c++"]
            jobs.append((os.path.getsize(s), common + libf + lang + ["-c", s, "-o"], o))
    for s in sorted(glob.glob(os.path.join(SIM, "*.cpp"))):
        harf = base_harf + (["-DSIM_PY"] + pyinc if flavour == "py" and os.path.basename(s) == "p_python.cpp" else ["-DSIM_F"] if flavour == "f" and os.path.basename(s) == "p_fortran.cpp" else [])
        k = hashlib.sha256((hh + sh_h + file_hash([s]) + " ".join(harf) + " ".join(common)).encode()).hexdigest()[:20]
        o = os.path.join(odir, "sim_" + os.path.basename(s)[:-4] + "-" + k + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((os.path.getsize(s), common + harf + ["-c", s, "-o"], o))
    jobs.sort(key=lambda j: -j[0])

    def comp(j):
        tmp = j[2] + f".{os.getpid()}.tmp"
        r = sh(j[1] + [tmp])
        if r.returncode:
            return (j, r.stdout)
        os.replace(tmp, j[2])
        return None
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for bad in ex.map(comp, jobs):
            if bad:
                raise BuildError(" ".join(bad[0][1]) + "\n" + bad[1][-4000:])
    key = hashlib.sha256(" ".join(objs + linkf).encode()).hexdigest()[:16]
    exe = os.path.join(BUILD, f"mdsim-{flavour}-{key}")
    if not os.path.exists(exe):
        tmp = exe + f".{os.getpid()}.tmp"
        r = sh(["g++", "-o", tmp] + objs + linkf + ["-ldl", "-lpthread", "-rdynamic"])
        if r.returncode:
            raise BuildError(r.stdout[-4000:])
        os.replace(tmp, exe)
    return exe


def env_for(flavour):
    e = dict(os.environ)
    if flavour == "san":
        e.update(SAN_ENV)
    if flavour == "py":
        e["MDSIM_PYDIR"] = PYDIR
    return e


def parse(line):
    try:
        return json.loads(line)
    except Exception:
        return None


class Runner:
    def __init__(self, exe, flavour, prop, tier, cpu=20):
        self.exe, self.flavour, self.prop, self.tier, self.cpu = exe, flavour, prop, tier, cpu
        self.env = env_for(flavour)

    def base_cmd(self):
        return [self.exe, "--prop", self.prop, "--tier", self.tier, "--cpu", str(self.cpu)]

    def seed(self, seed):
        r = subprocess.run(self.base_cmd() + ["--seed", str(seed)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=self.env)
        return parse(r.stdout.decode(errors="replace").strip().split("\n")[-1])

    def choices(self, streams, full=False):
        """Evaluates choice streams in parallel, returns the results in order."""
        if not streams:
            return []
        nw = min(NPROC, len(streams))
        res = [None] * len(streams)

        def work(w):
            idx = list(range(w, len(streams), nw))
            with tempfile.NamedTemporaryFile("w", suffix=".ch", delete=False) as f:
                for i in idx:
                    f.write(" ".join(map(str, streams[i])) + " \n")
                name = f.name
            try:
                r = subprocess.run(self.base_cmd() + ["--choices", name] + (["--full"] if full else []), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=self.env)
                lines = r.stdout.decode(errors="replace").strip().split("\n")
                for k, i in enumerate(idx):
                    res[i] = parse(lines[k]) if k < len(lines) else None
            finally:
                os.unlink(name)
        with cf.ThreadPoolExecutor(nw) as ex:
            list(ex.map(work, range(nw)))
        return res

    def sweep(self, base, count, budget, on_result, stop, start=0):
        """Runs seeds start..count of the family `base` over all cores."""
        procs = []

        def work(w):
            p = subprocess.Popen(self.base_cmd() + ["--base", str(base), "--start", str(start + w), "--stride", str(NPROC), "--count", str(count), "--budget", str(budget)],
                                 stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=self.env)
            procs.append(p)
            for line in p.stdout:
                d = parse(line.decode(errors="replace"))
                if d is None:
                    continue
                on_result(d)
                if stop():
                    p.kill()
                    break
            p.wait()
        with cf.ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(work, range(NPROC)))


def minimise(runner, choices, cls, budget=45.0):
    """Shrinks a choice stream while the same class of violation persists."""
    t0 = time.time()
    cur = list(choices)
    while cur and cur[-1] == 0:
        cur.pop()
    evals = 0

    def test(cands):
        nonlocal evals
        evals += len(cands)
        rs = runner.choices(cands)
        for c, r in zip(cands, rs):
            if r and r["verdict"] == "violation" and r["cls"] == cls:
                return c
        return None
    changed = True
    while changed and time.time() - t0 < budget:
        changed = False
        # cut the tail
        for frac in (2, 4, 8, 16):
            c = test([cur[: len(cur) - max(1, len(cur) // frac)]]) if cur else None
            if c is not None and time.time() - t0 < budget:
                cur = c
                changed = True
        # zero and delete chunks
        n = max(1, len(cur) // 2)
        while n >= 1 and time.time() - t0 < budget:
            i = 0
            while i < len(cur) and time.time() - t0 < budget:
                cands = []
                for w in range(4):
                    a, b = i + w * n, min(len(cur), i + (w + 1) * n)
                    if a >= len(cur):
                        break
                    if any(cur[a:b]):
                        z = cur[:a] + [0] * (b - a) + cur[b:]
                        cands.append(z)
                    cands.append(cur[:a] + cur[b:])
                c = test(cands) if cands else None
                if c is not None:
                    changed = changed or c != cur
                    cur = c
                    if n > 1:
                        i += n
                else:
                    i += 4 * n
            if n == 1:
                break
            n //= 2
            if n < max(1, len(cur) // 64) and time.time() - t0 > budget / 2:
                break
    # lower values
    i = 0
    idx = [k for k, v in enumerate(cur) if v > 1]
    while i < len(idx) and time.time() - t0 < budget * 1.3:
        cands = []
        for k in idx[i:i + 8]:
            cands.append(cur[:k] + [cur[k] // 2] + cur[k + 1:])
        c = test(cands)
        if c is not None:
            cur = c
            idx = [k for k, v in enumerate(cur) if v > 1]
        else:
            i += 8
    while cur and cur[-1] == 0:
        cur.pop()
    return cur, evals
