"""Shared machinery: build harness drivers from /repo's working tree, run TLC, replay, report.

Nothing here knows about a particular property; see checks/*.py.
"""
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
SPEC = os.path.join(VERIF, "spec")
TLAJARS = "/opt/veriftools/tla/tla2tools.jar"
NPROC = os.cpu_count() or 4


class MachineError(Exception):
    """The machinery itself failed (never reported as a violation)."""


# ----------------------------------------------------------------------------------------------
# building
VARIANTS = {
    "plain": ["-O1"],
    "asan": ["-O1", "-g1", "-fsanitize=address,bounds", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer",
             "-D_GLIBCXX_SANITIZE_VECTOR", "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread", "-DFREE_RUNNING"],
}
COMMON = ["-std=c++17", "-march=x86-64-v2", "-w", "-I" + REPO, "-I" + os.path.join(VERIF, "harness"), "-I/usr/include"]


# directories a driver does not need (only to shorten its build; a failed reduced build is retried with everything)
LIGHT = {
    "scriptdrv": ("dal/model", "dal/curve", "dal/indice", "dal/risk", "dal/protocol", "public/src", "dal/math/optimization",
                  "dal/platform/initall", "dal/math/random", "dal/math/pde", "dal/math/analytics", "dal/script/simulation", "dal/currency"),
    "concdrv": ("dal/script", "dal/model", "dal/curve", "dal/indice", "dal/risk", "dal/protocol", "public/src", "dal/math", "dal/time", "dal/storage",
                "dal/platform/initall", "dal/currency", "dal/string", "dal/utilities"),
    "simdrv": ("dal/curve", "dal/indice", "dal/risk", "public/src/interp", "public/src/random", "public/src/repository", "dal/math/optimization",
               "dal/platform/initall", "dal/math/pde"),
    "randdrv": ("dal/script", "dal/model", "dal/curve", "dal/indice", "dal/risk", "dal/protocol", "public/src", "dal/math/optimization",
                "dal/platform/initall", "dal/math/pde", "dal/math/aad", "dal/math/analytics", "dal/currency"),
    "storconc": ("dal/script", "dal/model", "dal/curve", "dal/indice", "dal/risk", "dal/protocol", "public/src", "dal/math/optimization",
                 "dal/platform/initall", "dal/math/random", "dal/math/pde", "dal/math/aad", "dal/math/analytics", "dal/currency", "dal/concurrency"),
    "timedrv": ("dal/script", "dal/model", "dal/curve", "dal/indice", "dal/risk", "dal/protocol", "public/src", "dal/math/optimization",
                "dal/platform/initall", "dal/math/random", "dal/math/pde", "dal/math/aad", "dal/math/analytics"),
}


def lib_sources(exclude=()):
    src = []
    for root in ("dal", "public/src"):
        for d, _, fs in os.walk(os.path.join(REPO, root)):
            if "/excel" in d or d.startswith(os.path.join(REPO, "dal/auto")):
                continue
            for f in fs:
                if os.path.relpath(os.path.join(d, f), REPO).startswith(tuple(exclude) or ("\0",)):
                    continue
                if f.endswith(".cpp") and not f.startswith("_repository"):
                    src.append(os.path.join(d, f))
    return sorted(src)


def build(driver, variant="plain"):
    if driver in LIGHT:
        try:
            return _build(driver, variant, LIGHT[driver])
        except MachineError as e:
            log("reduced build failed, trying the full one:", str(e)[:300])
    return _build(driver, variant, ())


def _build(driver, variant, exclude, extra=()):
    """Compile harness/<driver>.cpp against the sources of REPO; returns the executable's path.

    The ninja graph carries header dependencies, so a rebuild sees every change of the working tree."""
    bdir = os.path.join(BUILD, variant)
    os.makedirs(bdir, exist_ok=True)
    flags = " ".join(COMMON + VARIANTS[variant] + list(extra))
    ldflags = " ".join(VARIANTS[variant])
    srcs = lib_sources(exclude)
    lines = ["rule cxx", "  command = g++ %s -MMD -MF $out.d -c $in -o $out" % flags, "  depfile = $out.d", "  deps = gcc",
             "rule ar", "  command = rm -f $out && ar crs $out $in",
             "rule link", "  command = g++ %s $in -o $out -lpthread -ldl" % ldflags, ""]
    objs = []
    for s in srcs:
        o = os.path.join(bdir, "obj", os.path.relpath(s, REPO).replace("/", "__") + ".o")
        objs.append(o)
        lines.append("build %s: cxx %s" % (o, s))
    # the objects are linked whole (not through an archive) so that static initialisers run as in the library
    for d in [os.path.join(VERIF, "harness", driver + ".cpp")]:
        n = driver
        lines.append("build %s/h_%s.o: cxx %s" % (bdir, n, d))
        lines.append("build %s/%s: link %s/h_%s.o %s" % (bdir, n, bdir, n, " ".join(objs)))
    nf = os.path.join(bdir, "build_%s%s.ninja" % (driver, "_light" if exclude else ""))
    txt = "\n".join(lines) + "\n"
    if not os.path.exists(nf) or open(nf).read() != txt:
        with open(nf, "w") as f:
            f.write(txt)
    exe = os.path.join(bdir, driver)
    t0 = time.time()
    r = subprocess.run(["ninja", "-C", bdir, "-f", nf, exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise MachineError("build of %s failed:\n%s" % (driver, r.stdout[-4000:]))
    log("built %s/%s in %.1fs" % (variant, driver, time.time() - t0))
    return exe


def log(*a):
    print("#", *a, flush=True)


# ----------------------------------------------------------------------------------------------
# TLC
class TlcResult:
    def __init__(self):
        self.emitted, self.states, self.distinct, self.depth, self.ok, self.out = [], 0, 0, 0, False, ""


def tlc(module, cfg, workdir, *, workers=1, simulate=None, depth=None, seed=None, env=None, timeout=800, heap="4g",
        deadlock=False, files=None, sink=None, dfs=False):
    """Run TLC on spec/<module>.tla with the given cfg text.  Lines printed as "@@json" are collected
    (or passed to sink).  Returns a TlcResult; ok means TLC ended with no error."""
    os.makedirs(workdir, exist_ok=True)
    for f in glob.glob(os.path.join(SPEC, "*.tla")):
        shutil.copy(f, workdir)
    for n, c in (files or {}).items():
        with open(os.path.join(workdir, n), "w") as f:
            f.write(c)
    with open(os.path.join(workdir, module + ".cfg"), "w") as f:
        f.write(cfg)
    meta = tempfile.mkdtemp(prefix="meta", dir=workdir)
    cp = ":".join([TLAJARS] + sorted(glob.glob("/opt/veriftools/tla/*.jar")))
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4"]
    if dfs:
        cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
    cmd += ["-cp", cp, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE", "-config", module + ".cfg", "-workers", str(workers)]
    if not deadlock:
        cmd.append("-deadlock")          # i.e. do not check for deadlock
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth or 100)]
    if seed is not None:
        cmd += ["-seed", str(seed)]
    cmd.append(module + ".tla")
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    res = TlcResult()
    p = subprocess.Popen(cmd, cwd=workdir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e,
                         start_new_session=True)
    other = []
    import threading
    killed = []
    timer = threading.Timer(timeout, lambda: (killed.append(1), os.killpg(p.pid, signal.SIGKILL)))
    timer.start()
    try:
        for line in p.stdout:
            if line.startswith('"@@'):
                rec = json.loads(json.loads(line)[2:])
                if sink: sink(rec)
                else: res.emitted.append(rec)
            else:
                other.append(line)
                if len(other) > 20000: del other[:10000]
        p.wait()
    finally:
        timer.cancel()
    res.out = "".join(other)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", res.out)
    if m: res.states, res.distinct = int(m.group(1)), int(m.group(2))
    else:
        m = re.findall(r"(\d+) states checked|Progress: (\d+) states checked|The number of states generated: (\d+)", res.out)
        if m: res.states = max(int(x) for t in m for x in t if x)
    m = re.search(r"depth of the complete state graph search is (\d+)", res.out)
    if m: res.depth = int(m.group(1))
    if killed:
        raise MachineError("TLC timed out on %s after %ss" % (module, timeout))
    res.rc = p.returncode
    res.ok = p.returncode == 0 and "Error:" not in res.out
    shutil.rmtree(meta, ignore_errors=True)
    return res


def tlc_must(module, cfg, workdir, **kw):
    r = tlc(module, cfg, workdir, **kw)
    if not r.ok:
        raise MachineError("TLC rejected the specification %s (rc=%s):\n%s" % (module, r.rc, r.out[-3000:]))
    return r


# ----------------------------------------------------------------------------------------------
# replay: feed NDJSON cases to a driver and collect one NDJSON observation per case
class Replay:
    def __init__(self, exe, args=(), env=None, per_case_timeout=20, chunk=20000, width=6):
        self.exe, self.args, self.env, self.pct, self.chunk, self.width = exe, list(args), env, per_case_timeout, chunk, width
        self.hangs = 0

    def run(self, cases):
        """Yields (case, obs); a crash or hang of the driver on a case gives obs = {"crash": ...}.
        Long lists are split over several driver processes."""
        if len(cases) < 400 or self.width < 2:
            yield from self._run(cases)
            return
        from concurrent.futures import ThreadPoolExecutor
        n = min(self.chunk, (len(cases) + self.width - 1) // self.width)
        parts = [cases[i:i + n] for i in range(0, len(cases), n)]
        with ThreadPoolExecutor(self.width) as ex:
            for f in [ex.submit(lambda p: list(self._run(p)), p) for p in parts]:
                yield from f.result()

    def _run(self, cases):
        i = 0
        crashes = 0
        while i < len(cases):
            batch = cases[i:i + self.chunk]
            data = "\n".join(json.dumps(c) for c in batch) + "\n"
            obs, why = self._once(data, len(batch))
            for c, o in zip(batch, obs):
                yield c, o
            if len(obs) < len(batch):
                crashes += 1
                yield batch[len(obs)], {"crash": why}
                i += len(obs) + 1
                if why.startswith("hang"): self.hangs += 1
                if crashes > 25 or self.hangs > 6:      # enough to report
                    return
            else:
                i += len(batch)

    def _once(self, data, n):
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0"
        e["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1:report_signal_unsafe=0:second_deadlock_stack=1"
        e["TZ"] = "UTC"
        e.update(self.env or {})
        with tempfile.TemporaryFile("w+") as fin, tempfile.TemporaryFile("w+") as fout, tempfile.TemporaryFile("w+") as ferr:
            fin.write(data); fin.flush(); fin.seek(0)
            p = subprocess.Popen([self.exe] + self.args, stdin=fin, stdout=fout, stderr=ferr, env=e,
                                 cwd=tempfile.gettempdir())
            # watchdog on progress: the driver writes one line per case
            last, lastpos = time.time(), 0
            why = None
            while True:
                try:
                    p.wait(timeout=1.0)
                    break
                except subprocess.TimeoutExpired:
                    pos = os.fstat(fout.fileno()).st_size
                    if pos != lastpos:
                        lastpos, last = pos, time.time()
                    elif time.time() - last > self.pct:
                        p.kill(); p.wait()
                        why = "hang: no result within %ss" % self.pct
                        break
            fout.seek(0)
            lines = fout.read().split("\n")
            obs = []
            for l in lines:
                if l.startswith("{"):
                    try: obs.append(json.loads(l))
                    except ValueError: break
            if len(obs) < n and why is None:
                ferr.seek(0)
                er = ferr.read()
                m = re.search(r"ERROR: AddressSanitizer: ([^\n]*)", er)
                t = re.search(r"WARNING: ThreadSanitizer: ([^\n]*)\n(.*)", er, re.S)
                if t and "data race" in t.group(1):
                    return obs[:n], "data race: " + " | ".join(x.strip() for x in t.group(2).split("\n") if re.match(r"\s*(#[0-3] |Read|Write|Previous|Atomic)", x))[:1500]
                why = ("crash: exit code %s" % p.returncode) + ((" AddressSanitizer " + m.group(1)) if m else "") + \
                      ("" if m else " " + er[-300:])
            return obs[:n], why


# ----------------------------------------------------------------------------------------------
def close(a, b, tol):
    if isinstance(a, bool) or isinstance(b, bool): return a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b or abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(close(a[k], b[k], tol) for k in a)
    return a == b


class Check:
    """Context of one property check: collects coverage and violations, writes evidence, exits."""
    def __init__(self, pid, level):
        self.pid, self.level = pid, level
        self.tier = os.environ.get("VERIF_TIER_OVERRIDE") or (sys.argv[sys.argv.index("--tier") + 1] if "--tier" in sys.argv else "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.quick = self.tier == "quick"
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions, self.violations, self.notes = [], [], []
        self.work = tempfile.mkdtemp(prefix="verif_%s_" % pid)
        self.known = []
        kf = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(kf):
            self.known = [k for k in json.load(open(kf))["findings"] if k["property"] == pid]
        self.known_hit = {}

    def dir(self, name):
        d = os.path.join(self.work, name)
        os.makedirs(d, exist_ok=True)
        return d

    def tlc(self, module, cfg, name=None, **kw):
        t = time.time()
        r = tlc_must(module, cfg, self.dir(name or module), **kw)
        self.cov["states"] += r.distinct or r.states
        self.cov["transitions"] += r.states
        log("TLC %s: %d states, %d distinct, %d emitted, %.1fs" % (name or module, r.states, r.distinct, len(r.emitted), time.time() - t))
        return r

    def mc(self, module, consts, invariants=(), name=None, extra="", defs="", spec="Spec", **kw):
        """TLC on module with constants given as TLA+ expressions (through a wrapper module MC_<module>)."""
        m = "MC_" + module
        text = "---- MODULE %s ----\nEXTENDS %s\n%s" % (m, module, defs)
        cfg = "SPECIFICATION %s\n" % spec
        for k, v in consts.items():
            if re.fullmatch(r'[0-9{}, ]+|TRUE|FALSE|"[^"]*"', v):   # plain values are pre-evaluated by TLC
                cfg += "CONSTANT %s = %s\n" % (k, v)
                continue
            text += "MC_%s == %s\n" % (k, v)
            cfg += "CONSTANT %s <- MC_%s\n" % (k, k)
        text += "====\n"
        for i in invariants: cfg += "INVARIANT %s\n" % i
        files = {m + ".tla": text}
        files.update(kw.pop("files", {}))
        return self.tlc(m, cfg + extra, name=name or module, files=files, **kw)

    def parallel(self, thunks, width=4):
        """Runs the thunks (TLC runs) side by side; results in order."""
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(width) as ex:
            fs = [ex.submit(t) for t in thunks]
            return [f.result() for f in fs]

    def known_match(self, key):
        for k in self.known:
            if re.fullmatch(k["key"], key, re.S):
                self.known_hit[k["id"]] = k
                return True
        return False

    def violation(self, key, detail):
        """key identifies the failing input/history; used to match known findings."""
        if self.known_match(key):
            return
        self.violations.append((key, detail))

    def compare(self, replay, cases, name, diff, confirm=True):
        """Replays cases; diff(case, obs) -> None or (key, text).  A mismatch is confirmed by a second run."""
        n = 0
        bad = []
        t = time.time()
        if self.violations and t - self.t0 > 240:      # the verdict is settled
            log("%s: not replayed, violations were found already" % name)
            return 0
        for c, o in replay.run(cases):
            n += 1
            r = ("crash", o["crash"]) if "crash" in o else diff(c, o)
            if r is not None:
                bad.append((c, o, r))
                if len(bad) > 400: break
        confirmed = 0
        for c, o, r in sorted(bad[:200], key=lambda b: str(b[1].get("crash", "")).startswith("hang")):
            if confirmed and time.time() - t > 60: break
            if confirm:
                again = list(replay.run([c]))
                o2 = again[0][1] if again else {"crash": "no result"}
                r2 = ("crash", o2["crash"]) if "crash" in o2 else diff(c, o2)
                if r2 is None:
                    log("not reproduced in isolation:", json.dumps(c)[:300], r)
                    continue
                r = r2
            confirmed += 1
            self.violation("%s:%s" % (name, r[0]), {"suite": name, "case": c, "observed": o, "why": r[1]})
        if bad and not confirmed:
            # mismatch depends on the preceding cases of the same process: re-run the whole batch
            bad2 = []
            for c, o in replay.run(cases):
                r = ("crash", o["crash"]) if "crash" in o else diff(c, o)
                if r is not None: bad2.append((c, o, r))
            for c, o, r in bad2[:50]:
                self.violation("%s:%s" % (name, r[0]), {"suite": name, "case": c, "observed": o, "why": r[1], "history_dependent": True})
        self.cov["traces_validated_against_impl"] += n
        if cases and len(self.cov["samples"]) < 12:
            self.cov["samples"].append({"suite": name, "case": json.dumps(cases[len(cases) // 2])[:400]})
        self.cov.setdefault("suites", []).append({"name": name, "cases": n, "mismatches": len(bad)})
        log("%s: %d cases replayed, %d mismatches, %.1fs" % (name, n, len(bad), time.time() - t))
        return n

    def finish(self):
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known_hit.values():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        rc = 0
        if self.violations:
            rep = os.path.join(VERIF, "evidence", "replay_%s.json" % self.pid)
            with open(rep, "w") as f:
                json.dump([{"key": k, "detail": d} for k, d in self.violations[:50]], f, indent=1, default=str)
            for k, d in self.violations[:5]:
                print("  violation:", k, json.dumps(d, default=str)[:700])
            print("VIOLATION property=%s replay=%s" % (self.pid, rep))
            rc = 1
        shutil.rmtree(self.work, ignore_errors=True)
        print("# %s %s: %s in %.1fs" % (self.pid, self.tier, "VIOLATED" if rc else "held", time.time() - self.t0))
        sys.exit(rc)


def run_check(pid, level, fn):
    c = Check(pid, level)
    try:
        fn(c)
    except MachineError as e:
        print("MACHINE-ERROR property=%s: %s" % (pid, e))
        shutil.rmtree(c.work, ignore_errors=True)
        sys.exit(3)
    c.finish()
