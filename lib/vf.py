"""Runner of the checks: builds drivers from /repo's working tree, records traces,
runs TLC on design models and trace specifications, reports verdicts."""
import concurrent.futures, contextlib, fcntl, glob, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
CXX = "/usr/bin/clang++-18"
FLAGS = {
    "opt": ["-std=c++20", "-O3", "-march=native", "-w"],
    "asan": ["-std=c++20", "-O1", "-g", "-march=native", "-w", "-fsanitize=address", "-fno-omit-frame-pointer"],
    "i128": ["-std=c++20", "-O3", "-march=native", "-w", "-DWITH_INT128"],
    "yield": ["-std=c++20", "-O1", "-march=native", "-w", "-finstrument-functions-after-inlining"],
    "tsan": ["-std=c++20", "-O1", "-g", "-march=native", "-w", "-fsanitize=thread"],
}
NCPU = 8


class Broken(Exception):
    """the check itself could not be carried out (exit 2)"""


def sha(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else p.encode())
        m.update(b"\0")
    return m.hexdigest()[:20]


def tree_bytes(root, pat):
    out = []
    for p in sorted(glob.glob(os.path.join(root, pat), recursive=True)):
        if os.path.isfile(p):
            out.append(p[len(root):].encode() + b"\0" + open(p, "rb").read())
    return b"\1".join(out)


@contextlib.contextmanager
def locked(name):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, name + ".lock"), "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield


def cpu_id():
    try:
        t = open("/proc/cpuinfo").read()
        return "".join(re.findall(r"^(?:model name|flags)\s*:.*$", t, re.M)[:2])
    except OSError:
        return ""


def java_classes():
    src = os.path.join(VERIF, "java")
    files = sorted(glob.glob(os.path.join(src, "*.java")))
    d = os.path.join(BUILD, "java-" + sha(tree_bytes(src, "*.java")))
    with locked("java"):
        if not os.path.exists(os.path.join(d, "ok")):
            tmp = d + ".tmp"
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            r = subprocess.run(["javac", "-nowarn", "-cp", JARS, "-d", tmp] + files, capture_output=True, text=True)
            if r.returncode:
                raise Broken("javac: " + r.stderr[-800:])
            open(os.path.join(tmp, "ok"), "w").close()
            shutil.rmtree(d, ignore_errors=True)
            os.rename(tmp, d)
    return d


def driver(name, variant="opt"):
    """path of the driver binary built from /repo's current working tree"""
    src = os.path.join(VERIF, "drv", name + ".cpp")
    flags = FLAGS[variant]
    key = sha(open(src, "rb").read(), tree_bytes(os.path.join(VERIF, "drv"), "*.hpp"),
              tree_bytes(os.path.join(VERIF, "shim"), "*.hpp"), tree_bytes(os.path.join(REPO, "include"), "**/*"),
              " ".join(flags), cpu_id())
    exe = os.path.join(BUILD, f"{name}-{variant}-{key}")
    with locked(f"{name}-{variant}"):
        if not os.path.exists(exe):
            tmp = exe + ".tmp"
            # internal functions may change their form: without them, then
            for more in ([], ["-DNO_INTERNALS"]):
                r = subprocess.run([CXX] + flags + more + ["-I", os.path.join(VERIF, "shim"), "-I", os.path.join(REPO, "include"), src,
                                                           "-o", tmp, "-lgmpxx", "-lgmp", "-lpthread"], capture_output=True, text=True)
                if r.returncode == 0 or "NO_INTERNALS" not in open(src).read():
                    break
            if r.returncode:
                raise Broken(f"driver {name} does not compile against /repo: " + r.stderr[-1500:])
            for old in glob.glob(os.path.join(BUILD, f"{name}-{variant}-*")):
                if not old.endswith(".lock") and old != tmp and time.time() - os.path.getmtime(old) > 7200:
                    with contextlib.suppress(OSError):
                        os.unlink(old)
            os.rename(tmp, exe)
    return exe


def _limits():
    soft, hard = resource.getrlimit(resource.RLIMIT_STACK)
    with contextlib.suppress(Exception):
        want = 1 << 30
        resource.setrlimit(resource.RLIMIT_STACK, (want if hard == resource.RLIM_INFINITY or hard >= want else hard, hard))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def tail(s, n=1500):
    return s[-n:]


class TLCResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.findall(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m[-1]) if m else None
        self.actions = {}
        for a, d, g in re.findall(r"^<(\w+) line [^>]*>: (\d+):(\d+)", out, re.M):
            x = self.actions.setdefault(a, [0, 0])
            x[0] += int(d)
            x[1] += int(g)

    @property
    def ok(self):
        return self.rc == 0

    def where(self):
        """last (h, i) of the error trace"""
        hs = re.findall(r"^(?:/\\ )?h = (\d+)", self.out, re.M)
        is_ = re.findall(r"^(?:/\\ )?i = (\d+)", self.out, re.M)
        return (int(hs[-1]), int(is_[-1])) if hs and is_ else None


def tlc(module, cfg=None, env=None, args=(), workers=NCPU, timeout=800, heap="8g", deadlock=True, props=()):
    cls = java_classes()
    meta = tempfile.mkdtemp(prefix="tlc", dir=ensure(os.path.join(BUILD, "meta")))
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ["java", "-XX:+UseParallelGC", f"-XX:ParallelGCThreads={max(2, workers)}", "-Xmx" + heap, "-Xss64m",
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:FalconOverrides", *props,
           "-cp", cls + ":" + JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
           "-config", os.path.join(SPEC, (cfg or module) + ".cfg"), "-nowarning", "-noGenerateSpecTE", *args]
    if not deadlock:
        cmd.append("-deadlock")
    cmd.append(os.path.join(SPEC, module + ".tla"))
    t0 = time.time()
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e, cwd=SPEC)
        rc, out = r.returncode, re.sub(r"^(Parsing file|Semantic processing|Linting of|Computed \d+ initial).*\n", "", r.stdout + r.stderr, flags=re.M)
    except subprocess.TimeoutExpired as x:
        rc, out = -1, f"TLC timed out after {timeout} s\n" + ((x.stdout or b"").decode(errors="replace"))[-3000:]
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return TLCResult(rc, out, time.time() - t0)


def ensure(d):
    os.makedirs(d, exist_ok=True)
    return d


# TLC exit codes that mean "this behaviour is not one of the specification":
# 10 assumption, 11 deadlock, 12 safety, 13 liveness, 75..77 evaluation of the
# behaviour failed (a recorded value of a type the specification has no room for)
REJECT = {10, 11, 12, 13, 75, 76, 77}


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.dir = ensure(os.path.join(BUILD, "run", f"{pid}-{os.getpid()}"))
        self.out = ensure(os.path.join(VERIF, "out", pid))
        self.states = self.transitions = self.traces = self.events = 0
        self.design, self.samples, self.notes, self.ops, self.actions = [], [], {}, {}, {}
        self.violations = []
        self.accepted = set()

    thorough = property(lambda self: self.tier == "thorough")

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def log(self, *a):
        print(f"[{time.time() - self.t0:6.1f}s]", *a, flush=True)

    # ---- design model, exhaustively
    def model(self, module, cfg=None, env=None, must_take=(), deadlock=False, **kw):
        r = tlc(module, cfg, env=env, args=["-coverage", "1000"] if must_take else [], deadlock=deadlock, **kw)
        name = cfg or module
        if not r.ok:
            raise Broken(f"design model {name}: TLC exit {r.rc}\n" + tail(r.out, 3000))
        never = [a for a in must_take if not r.actions.get(a, [0, 0])[1]]
        if never:
            raise Broken(f"design model {name}: vacuous, actions never taken: {never}")
        self.states += r.distinct
        self.transitions += r.generated
        self.design.append({"model": name, "states": r.distinct, "generated": r.generated, "depth": r.depth, "wall_s": round(r.wall, 1)})
        self.log(f"model {name}: {r.distinct} states, {r.wall:.1f} s")
        return r

    # ---- the same model with a fault switched on must be refuted (so the
    # property checked is not vacuous)
    def refute(self, module, cfg=None, deadlock=False, workers=NCPU, **env):
        r = tlc(module, cfg, env=env, deadlock=deadlock, workers=workers)
        if r.rc not in REJECT:
            raise Broken(f"design model {cfg or module} with {env}: not refuted, TLC exit {r.rc}\n" + tail(r.out, 2000))
        self.design.append({"model": cfg or module, "fault": env, "refuted": True, "wall_s": round(r.wall, 1)})
        self.log(f"model {cfg or module} {env}: refuted, {r.wall:.1f} s")

    # ---- a model and its faulty variants, at the same time
    def design_of(self, module, cfg=None, must_take=(), faults=(), **kw):
        self.designs((module, cfg, must_take, faults), **kw)

    def designs(self, *sets, **kw):
        java_classes()
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            fs = []
            for module, cfg, must_take, faults in sets:
                fs.append(ex.submit(self.model, module, cfg, must_take=must_take, workers=2, **kw))
                fs += [ex.submit(self.refute, module, cfg, workers=2, FAULT=f) for f in faults]
            for f in fs:
                f.result()

    # ---- record
    def record(self, drv, args=(), variant="opt", out=None, timeout=600, env=None):
        exe = driver(drv, variant)
        out = out or os.path.join(self.dir, f"{drv}-{variant}-{len(os.listdir(self.dir))}.ndjson")
        cmd = [exe, "--out", out, "--seed", str(self.seed)] + [str(a) for a in args]
        e = dict(os.environ)
        e.update(env or {})
        e["CORPUS"] = os.path.join(VERIF, "corpus")
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=97:detect_stack_use_after_return=0"
        t = time.time()
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, preexec_fn=_limits, env=e, errors="replace")
            rc, err = r.returncode, r.stderr
        except subprocess.TimeoutExpired:
            raise Broken(f"driver {drv} did not end within {timeout} s")
        if rc not in (0, 97) or not os.path.exists(out):
            raise Broken(f"driver {drv} ended with {rc}: {tail(err)}")
        self.log(f"recorded {drv}/{variant} {' '.join(str(a) for a in args)[:80]}: {os.path.getsize(out) >> 10} KiB, {time.time() - t:.1f} s")
        return Trace(out, cmd, err if rc == 97 else "")

    def build(self, *jobs):
        """several drivers at the same time: (driver[, variant])"""
        with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
            for f in [ex.submit(driver, *j) for j in dict.fromkeys(jobs)]:
                f.result()

    def records(self, *jobs):
        """several recordings at the same time: (driver, args[, variant])"""
        self.build(*[(d, *v) for d, _, *v in jobs])
        with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
            fs = [ex.submit(self.record, d, args, *v, out=os.path.join(self.dir, f"{d}-{k}-{time.time_ns()}.ndjson"))
                  for k, (d, args, *v) in enumerate(jobs)]
            return [f.result() for f in fs]

    def merge(self, traces):
        """histories of several recordings in one file"""
        out = os.path.join(self.dir, f"merged-{time.time_ns()}.ndjson")
        with open(out, "wb") as o:
            for t in traces:
                with open(t.path, "rb") as f:
                    shutil.copyfileobj(f, o)
                os.unlink(t.path)
        return Trace(out, [t.cmd for t in traces], "\n".join(t.err for t in traces if t.err))

    # ---- validate
    def validate(self, module, trace, cfg=None, env=None, sample=True, keep=False, workers=NCPU, **kw):
        """TLC accepts every recorded history, or it is a violation"""
        e = dict(env or {})
        e["TRACE"] = trace.path
        with open(trace.path, "rb") as f:
            key = (module, cfg, sha(f.read(), json.dumps(env or {}, sort_keys=True)))
        if key in self.accepted:  # the same behaviour, recorded from another build
            self.notes["identical_traces_from_other_builds"] = self.notes.get("identical_traces_from_other_builds", 0) + 1
            self.log(f"{module}: same trace as accepted before")
            os.unlink(trace.path)
            return None
        r = tlc(module, cfg, env=e, workers=workers, **kw)
        if r.rc in REJECT:
            at = r.where()
            hist = trace.history(at[0]) if at else None
            # a rejection counts only if TLC repeats it, on this history alone
            if hist is not None:
                one = os.path.join(self.dir, "rejected.ndjson")
                with open(one, "w") as f:
                    f.write(hist + "\n")
                r2 = tlc(module, cfg, env=dict(e, TRACE=one), workers=1, **kw)
            else:
                r2 = tlc(module, cfg, env=e, workers=workers, **kw)
            if r2.rc not in REJECT:
                raise Broken(f"{module}: rejection not repeatable (exit {r.rc}, then {r2.rc})\n" + tail(r.out, 2500))
            self.violation(module, trace, at, hist, r2)
        elif not r.ok:
            raise Broken(f"{module} on {trace.path}: TLC exit {r.rc}\n" + tail(r.out, 3000))
        else:
            self.accepted.add(key)
            for x in re.findall(r'^<<\s*"NOTE",\s*(.*?)>>$', r.out, re.M | re.S):
                x = re.sub(r"\s+", " ", x)
                o = self.notes.setdefault("outcomes", {})
                o[x] = o.get(x, 0) + 1
            n, ev, ops, smp = trace.stats()
            if n == 0 or r.distinct < n:
                raise Broken(f"{module}: trace file without histories")
            if r.distinct != n + ev:
                self.notes.setdefault("branching", []).append([module, r.distinct, n + ev])
            self.states += r.distinct
            self.transitions += r.generated
            self.traces += n
            self.events += ev
            for k, v in ops.items():
                self.ops[k] = self.ops.get(k, 0) + v
            if sample:
                self.samples += smp
            self.log(f"validated {module}: {n} histories, {ev} events, {r.wall:.1f} s")
        if not keep:
            with contextlib.suppress(OSError):
                os.unlink(trace.path)
        return r

    def violation(self, module, trace, at, hist, r, note=None):
        k = len(self.violations) + 1
        path = os.path.join(self.out, f"violation-{k}.json")
        what = None
        if hist is not None:
            h = json.loads(hist)
            ev = h["ev"][at[1]] if at and at[1] < len(h["ev"]) else None
            what = {"history": h.get("h"), "event_index": at[1] if at else None, "event": ev}
            with open(os.path.join(self.out, f"violation-{k}.ndjson"), "w") as f:
                f.write(hist + "\n")
        rec = {"property": self.pid, "spec": module, "rejected": what, "driver": trace.cmd if trace else None,
               "repo": REPO, "tlc_exit": r.rc, "tlc_tail": tail(r.out, 3000), "driver_stderr": tail(trace.err, 3000) if trace else "",
               "rerun": f"TRACE={self.out}/violation-{k}.ndjson tlc -config {SPEC}/{module}.cfg {SPEC}/{module}.tla", "note": note}
        with open(path, "w") as f:
            json.dump(rec, f, indent=1)
        self.violations.append(path)
        s = json.dumps(what)[:600] if what else tail(r.out, 600)
        self.log(f"REJECTED by {module}: {s}")

    # ---- end
    def finish(self, level="model_checking"):
        known = known_findings(self.pid)
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "events_validated": self.events, "events_by_kind": self.ops, "design_models": self.design,
               "samples": self.samples[:6] or [{"design": d} for d in self.design[:3]], "violations": self.violations, **self.notes}
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "wall_s": round(time.time() - self.t0, 1)}
        d = ensure(os.path.join(VERIF, "evidence"))
        tmp = os.path.join(d, f".{self.pid}.{os.getpid()}")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(d, self.pid + ".json"))
        shutil.rmtree(self.dir, ignore_errors=True)
        for k in known:
            print(f"KNOWN-FINDING: property={self.pid} {k}")
        if self.violations:
            print(f"VIOLATION property={self.pid} replay={self.violations[0]}", flush=True)
            return 1
        print(f"OK property={self.pid} tier={self.tier} states={self.states} traces={self.traces} events={self.events} wall={ev['wall_s']}s")
        return 0


class Trace:
    def __init__(self, path, cmd, err=""):
        self.path, self.cmd, self.err = path, cmd, err

    def history(self, n):
        with open(self.path) as f:
            for k, line in enumerate(f, 1):
                if k == n:
                    return line.rstrip("\n")
        return None

    def stats(self):
        n = ev = 0
        ops, smp = {}, []
        with open(self.path) as f:
            for line in f:
                n += 1
                o = re.findall(r'"op":"([^"]+)"', line)
                ev += len(o)
                for x in o:
                    ops[x] = ops.get(x, 0) + 1
                if len(smp) < 2 and len(line) < 1500 or not smp:
                    smp.append(line.strip()[:700])
        return n, ev, ops, smp


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\w+) (.*)", line)
            if m and m.group(1) == pid:
                out.append(m.group(2))
    return out


def main(checks):
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(2))
    c = Check(pid, tier, seed)
    try:
        checks[pid](c)
        sys.exit(c.finish())
    except Broken as x:
        if c.violations:  # what was found stands
            c.notes["incomplete"] = str(x)[:500]
            sys.exit(c.finish())
        print(f"CHECK-ERROR property={pid}: {x}", flush=True)
        shutil.rmtree(c.dir, ignore_errors=True)
        sys.exit(2)
