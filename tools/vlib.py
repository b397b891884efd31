"""Shared machinery: builds the driver from /repo, runs TLC, replays behaviours, writes evidence."""
import concurrent.futures, hashlib, json, os, shutil, subprocess, sys, tempfile, time, glob, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PICO_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, ".build")
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
JOBS = 8

ASAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:exitcode=99:max_malloc_fill_size=1000000000:malloc_fill_byte=171:"
                            "allocator_may_return_null=0:handle_abort=0:abort_on_error=0:detect_stack_use_after_return=0:"
                            "max_allocation_size_mb=2000",
            "UBSAN_OPTIONS": "print_stacktrace=0"}
CXXFLAGS = ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern",
            "-DDEBUG=0", "-DINFO=0", "-w"]


class HarnessError(Exception):
    pass


def log(*a):
    print("[%7.1fs]" % (time.time() - T0), *a, flush=True)


T0 = time.time()


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return r.returncode, r.stdout


def lib_sources():
    out = []
    for base, dirs, files in os.walk(os.path.join(REPO, "pico-cnn")):
        dirs[:] = sorted(d for d in dirs if not d.startswith("."))
        for f in sorted(files):
            if f.endswith((".cpp", ".c", ".cc", ".h", ".hpp")):
                out.append(os.path.join(base, f))
    return out


def _hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:20]


def prune_build(keep=12):
    ds = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD)), key=os.path.getmtime)
    for d in ds[:-keep]:
        shutil.rmtree(d, ignore_errors=True)


def build_lib(flags=CXXFLAGS, tag="asan"):
    """Compile every library source of the current tree; returns (dir, object list)."""
    srcs = lib_sources()
    key = _hash(srcs, " ".join(flags) + tag)
    d = os.path.join(BUILD, "lib-" + key)
    units = [s for s in srcs if s.endswith((".cpp", ".cc", ".c"))]
    objs = [os.path.join(d, os.path.relpath(s, REPO).replace("/", "_") + ".o") for s in units]
    if not os.path.exists(os.path.join(d, "ok")):
        os.makedirs(d, exist_ok=True)

        def one(so):
            s, o = so
            rc, out = sh(["g++"] + flags + ["-I", REPO, "-c", s, "-o", o])
            return (s, out) if rc else None
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            bad = [b for b in ex.map(one, zip(units, objs)) if b]
        if bad:
            raise HarnessError("library does not compile: %s\n%s" % bad[0])
        open(os.path.join(d, "ok"), "w").close()
    os.utime(d)
    prune_build()
    return d, objs


def build_driver(main="driver.cpp", extra_flags=(), libs=("-ljpeg", "-lm"), flags=CXXFLAGS, tag="asan"):
    d, objs = build_lib(flags, tag)
    hdrs = sorted(glob.glob(os.path.join(VERIF, "driver", "*")))
    key = _hash(hdrs, main + " ".join(extra_flags))
    exe = os.path.join(d, os.path.splitext(main)[0] + "-" + key[:10])
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        rc, out = sh(["g++"] + flags + list(extra_flags) + ["-I", REPO, "-I", os.path.join(VERIF, "driver"),
                      os.path.join(VERIF, "driver", main)] + objs + list(libs) + ["-o", tmp])
        if rc:
            raise HarnessError("driver does not compile:\n" + out)
        os.rename(tmp, exe)
    return exe


class Tlc:
    """One TLC run, possibly in the background.  Printed JSON lines go to `out`."""

    def __init__(self, module, consts, out, invariants=(), properties=(), spec="Spec", workers=JOBS, heap="6g",
                 extra=(), postcondition=None, timeout=840, env=None, view=None):
        self.module, self.out, self.timeout = module, out, timeout
        self.tmp = tempfile.mkdtemp(prefix="verif_tlc_")
        cfg = ["SPECIFICATION " + spec, "CONSTANTS"]
        for k, v in consts.items():
            cfg.append("  %s %s" % (k, v if isinstance(v, str) and v.startswith("<-") else "= " + str(v)))
        if invariants:
            cfg.append("INVARIANTS " + " ".join(invariants))
        if properties:
            cfg.append("PROPERTIES " + " ".join(properties))
        if view:
            cfg.append("VIEW " + view)
        if postcondition:
            cfg.append("POSTCONDITION " + postcondition)
        cfg.append("CHECK_DEADLOCK FALSE")
        self.cfg = os.path.join(self.tmp, "m.cfg")
        open(self.cfg, "w").write("\n".join(cfg) + "\n")
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", TLAJARS, "tlc2.TLC", "-noGenerateSpecTE",
               "-workers", str(workers), "-seed", str(SEED), "-fp", "7", "-metadir", os.path.join(self.tmp, "states"), "-config", self.cfg]
        cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
        self.raw = os.path.join(self.tmp, "out.txt")
        e = dict(os.environ); e.update(env or {}); e["JAVA_TOOL_OPTIONS"] = "-Djava.io.tmpdir=" + self.tmp
        self.t0 = time.time()
        self.p = subprocess.Popen(cmd, stdout=open(self.raw, "w"), stderr=subprocess.STDOUT, cwd=SPEC, env=e)

    def wait(self):
        try:
            self.p.wait(timeout=max(1, self.timeout - (time.time() - self.t0)))
        except subprocess.TimeoutExpired:
            self.p.kill()
            raise HarnessError("TLC %s timed out" % self.module)
        n = 0
        rest = []
        self.states = self.transitions = 0
        with open(self.raw) as f, open(self.out, "w") as o:
            for line in f:
                if line.startswith('"{'):
                    o.write(line.rstrip("\n")[1:-1].replace('\\"', '"').replace("\\\\", "\\") + "\n")
                    n += 1
                else:
                    rest.append(line)
                    if "distinct states found" in line and "states generated" in line and "Progress" not in line:
                        w = line.replace(",", "").split()
                        self.transitions = int(w[0]); self.states = int(w[w.index("distinct") - 1])
        self.text = "".join(rest if len(rest) < 20000 else rest[:10000] + rest[-10000:])
        self.n = n
        self.wall = time.time() - self.t0
        ok = self.p.returncode == 0 and "No error has been found" in self.text
        keep = self.text
        shutil.rmtree(self.tmp, ignore_errors=True)
        if not ok:
            i = keep.find("Error:")
            raise ModelError("TLC %s failed (rc %s):\n%s" % (self.module, self.p.returncode, "\n".join(l for l in keep.splitlines() if "Invariant" in l or "rror" in l or "violated" in l)[:600] + "\n" + (keep[max(0, i - 600):i + 3500] if i >= 0 else keep[-3500:])))
        return self


class ModelError(HarnessError):
    pass


def drive(exe, mode, cases, jobs=JOBS, env=None, timeout=800):
    e = dict(os.environ); e.update(ASAN_ENV); e.update(env or {})
    r = subprocess.run([exe, mode, cases, str(jobs)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=e,
                       timeout=timeout, errors="replace")
    fails, done, total = [], None, None
    for l in r.stdout.splitlines():
        if l.startswith("FAIL "):
            _, k, msg = l.split(" ", 2); fails.append((int(k), msg))
        elif l.startswith("HARNESS"):
            raise HarnessError("driver: " + l)
        elif l.startswith("DONE "):
            w = l.split(); done, total = int(w[1]), int(w[3])
    if done is None or (done != total and not fails):
        raise HarnessError("driver did not finish (rc %s): %s %s" % (r.returncode, r.stdout[-800:], r.stderr[-800:]))
    fails.sort()
    return fails, done, total


def nth_line(path, k):
    with open(path) as f:
        for i, l in enumerate(f):
            if i == k:
                return l.rstrip("\n")
    raise HarnessError("no line %d" % k)



def load_known():
    """KNOWN_FINDINGS.txt: {(property, key): description}"""
    out = {}
    for l in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
        if l.startswith("known: "):
            w = l.strip().split(" ", 3)
            out[(w[1].split("=")[1], w[2].split("=")[1])] = w[3]
    return out


class Report:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.violations = []
        self.known = []
        self.assumptions = []

    def add(self, key, n):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, s, limit=3):
        if len(self.cov["samples"]) < limit:
            s = s if isinstance(s, str) else json.dumps(s)
            self.cov["samples"].append(s[:1500])

    def violation(self, what, replay):
        """replay: dict or text saved for reproduction"""
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        name = os.path.join(d, "%s-%d.json" % (self.prop, len(self.violations) + 1))
        with open(name, "w") as f:
            f.write(replay if isinstance(replay, str) else json.dumps(replay))
        self.violations.append((what, name))

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions, "wall_s": round(time.time() - T0, 2),
              "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for what, name in self.violations[:10]:
            print("  " + what[:600])
            print("VIOLATION property=%s replay=%s" % (self.prop, name))
        log("states %s transitions %s behaviours replayed %s violations %d" % (
            self.cov["states"], self.cov["transitions"], self.cov["traces_validated_against_impl"], len(self.violations)))
        return 1 if self.violations else 0


class Again:
    """The failures of running all behaviours once more, for those that do not fail alone: what a process did
    before can be what makes a behaviour fail."""
    def __init__(self, *a):
        self.a, self.got = a, None

    def __call__(self):
        if self.got is None:
            exe, mode, cases, env = self.a
            self.got = {k for k, _ in drive(exe, mode, cases, env=env)[0]}
        return self.got


def replay_and_report(rep, exe, cases, mode="replay", env=None, describe=None, excuse=None):
    """Replay a file of behaviours; every failure is confirmed by a second run."""
    fails, done, total = drive(exe, mode, cases, env=env)
    rep.add("traces_validated_against_impl", done)
    if fails and excuse:
        fails = excuse(fails)
    if fails:
        log("%d behaviours failed, confirming" % len(fails))
        ks = {k for k, _ in fails[:6]}
        tmp = tempfile.mkdtemp(prefix="verif_confirm_")
        anew = Again(exe, mode, cases, env)
        try:
            with open(cases) as f:
                lines = [(i, l) for i, l in enumerate(f) if i in ks]
            for i, l in lines:
                p = os.path.join(tmp, "one.jsonl"); open(p, "w").write(l)
                again, _, _ = drive(exe, mode, p, jobs=1, env=env)
                msg = dict(fails)[i]
                if not again:
                    if i not in anew():
                        raise HarnessError("failure of behaviour %d did not repeat: %s" % (i, msg))
                    msg += " (only after the behaviours before it in one process)"
                try:
                    c = json.loads(l)
                    desc = describe(c) if describe else "key=%s" % json.dumps(c.get("key"))
                except Exception:
                    desc = ""
                rep.violation("behaviour %d %s: %s" % (i, desc, msg), l)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    with open(cases) as f:
        for i, l in enumerate(f):
            if i % max(1, total // 3) == 0:
                rep.sample(l.strip())
    return fails
