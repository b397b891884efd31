"""From models to running networks: import with the working tree's importer, compile, replay."""
import concurrent.futures, hashlib, json, os, re, shutil, subprocess, tempfile
from vlib import *

PYTHON = "/opt/veriftools/pyvenv/bin/python3" if os.path.exists("/opt/veriftools/pyvenv/bin/python3") else "python3-vt"
NETFLAGS = ["-std=c++11", "-O0", "-fsanitize=address", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern", "-fPIC", "-w",
            "-DDEBUG=0", "-DINFO=0", "-I", REPO]
BATCH = 8


def import_models(models, out, jobs=JOBS):
    """models: a JSONL file.  Returns a list of dicts per model: dir, produced, said (what the importer said when it refused)."""
    r = subprocess.run([PYTHON, os.path.join(VERIF, "importer", "run_import.py"), models, out, str(jobs)],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=600)
    if r.returncode:
        raise HarnessError("the importer could not be started:\n" + r.stdout[-3000:])
    res = []
    with open(models) as f:
        for k, l in enumerate(f):
            rec = json.loads(l)
            d = os.path.join(out, str(k))
            gen = os.path.join(d, "generated_code", rec["model"]["nm"])
            st = {"raised": "ended without reporting (hang or crash)", "exit": None}
            if os.path.exists(os.path.join(d, "status.json")):
                st = json.load(open(os.path.join(d, "status.json")))
            if st.get("harness"):
                raise HarnessError("model %d: %s" % (k, st["harness"]))
            text = open(os.path.join(d, "log"), errors="replace").read() if os.path.exists(os.path.join(d, "log")) else ""
            produced = os.path.exists(os.path.join(gen, "network.cpp"))
            said = st["raised"] or (("exit status %s: " % st["exit"]) if st["exit"] not in (None, 0) else "") + \
                " / ".join(x for x in text.splitlines() if "error" in x.lower() or "not supported" in x.lower())[:300]
            steps = import_steps(rec, st)
            res.append({"steps": steps, "rec": rec, "gen": gen, "produced": produced, "said": said, "clean": not st["raised"] and st["exit"] in (None, 0), "k": k})
    return res


def import_steps(rec, st):
    """What is wrong with the command line imports of a history, one message per step that is."""
    msgs, tree = [], set()
    for a, s in zip([a for a in rec["hist"] if a["op"] == "import"], st.get("steps", [])):
        verdict = (rec if a["i"] == 0 else rec["others"][a["i"] - 1])["verdict"]
        what = "--input %s%s%s (batch dimension: %s)" % (a["dir"], a["stem"], a["ext"], a["batch"])
        if verdict == "accept":
            tree.add(a["stem"])
            if s["raised"] or s["exit"]:
                msgs.append("%s ends with %s" % (what, s["raised"] or "status %d" % s["exit"]))
        if sorted(tree) != s["names"]:
            msgs.append("after %s there are networks %s, expected %s" % (what, s["names"], sorted(tree)))
        if set(s["changed"]) - ({a["stem"]} if verdict == "accept" else set()):
            msgs.append("%s changes the networks %s" % (what, s["changed"]))
    return msgs


def _glue(items):
    t = ['#include "pico-cnn/pico-cnn.h"']
    for fn, path in items:
        t += ["#define Network %s_Network" % fn, '#include "%s"' % path, "#undef Network", "#undef NETWORK_H",
              'extern "C" {',
              "void *%s_create() { return new %s_Network(); }" % (fn, fn),
              "void %s_destroy(void *n) { delete (%s_Network *) n; }" % (fn, fn),
              "void %s_run(void *n, pico_cnn::naive::Tensor *i, pico_cnn::naive::Tensor *o) { ((%s_Network *) n)->run(i, o); }" % (fn, fn),
              "pico_cnn::naive::Tensor ***%s_kernels(void *n) { return &((%s_Network *) n)->kernels; }" % (fn, fn),
              "pico_cnn::naive::Tensor ***%s_biases(void *n) { return &((%s_Network *) n)->biases; }" % (fn, fn),
              "}"]
    return "\n".join(t) + "\n"


class Nets:
    """Compiles accepted networks, several to a shared object, each text only once."""

    def __init__(self, tmp):
        self.dir = os.path.join(tmp, "nets"); os.makedirs(self.dir)
        inc = os.path.join(self.dir, "pch", "pico-cnn"); os.makedirs(inc)
        self.pch = os.path.join(self.dir, "pch")
        open(os.path.join(inc, "pico-cnn.h"), "w").write('#include "%s"\n' % os.path.join(REPO, "pico-cnn", "pico-cnn.h"))
        # a header beside its .gch is picked up before the directory of the repository
        rc, out = sh(["g++"] + NETFLAGS + ["-x", "c++-header", os.path.join(inc, "pico-cnn.h")])
        if rc:
            raise HarnessError("pico-cnn.h does not compile:\n" + out[-2000:])

    def _compile(self, items, name):
        src = os.path.join(self.dir, name + ".cpp"); so = os.path.join(self.dir, name + ".so")
        open(src, "w").write(_glue(items))
        rc, out = sh(["g++", "-I", self.pch] + NETFLAGS + ["-shared", src, "-o", so])
        os.unlink(src)
        return (so, None) if rc == 0 else (None, out)

    def build(self, results):
        """results: import results that produced a network; sets so, fn or error on each."""
        uniq, order = {}, []
        for r in results:
            h = hashlib.sha256()
            for f in ("network.cpp", "network.h"):
                p = os.path.join(r["gen"], f)
                h.update(open(p, "rb").read() if os.path.exists(p) else b"-")
            key = h.hexdigest()
            if key not in uniq:
                uniq[key] = {"fn": "n%d" % len(order), "path": os.path.join(r["gen"], "network.cpp")}
                order.append(key)
            r["text"] = key
        batches = [order[i:i + BATCH] for i in range(0, len(order), BATCH)]

        def one(b):
            ks = batches[b]
            so, err = self._compile([(uniq[k]["fn"], uniq[k]["path"]) for k in ks], "b%d" % b)
            if so:
                for k in ks:
                    uniq[k].update(so=so, error=None)
                return
            for k in ks:
                so, err = self._compile([(uniq[k]["fn"], uniq[k]["path"])], "s_" + uniq[k]["fn"])
                uniq[k].update(so=so, error=err)
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(one, range(len(batches))))
        for r in results:
            u = uniq[r["text"]]
            r.update(so=u["so"], fn=u["fn"], error=u["error"])
        return len(order)


def short_error(err):
    for l in (err or "").splitlines():
        if "error" in l:
            return re.sub(r"^.*generated_code/", "", l)[:300]
    return (err or "")[-300:]


def describe(rec):
    m = rec["model"]
    return "key=%s model %s -> %s" % (json.dumps(rec["key"]), " ; ".join(
        "%s(%s)%s" % (n["op"], ",".join(n["ins"]), "".join(" %s=%s" % (a["n"], a["s"] or a["v"]) for a in n["at"])) for n in m["nodes"])[:400], rec["verdict"])


def net_driver():
    return build_driver(main="net.cpp", extra_flags=("-rdynamic",), libs=("-ljpeg", "-lm", "-ldl"))


def spec_floats(t):
    """The values of a specification tensor, for the files of the stand-alone programs."""
    import math
    assert t["m"] == "i" and not t["q"] and not t["xs"], t
    return [math.ldexp(v, t["x"]) for v in t["d"]]


def library_tree(tmp):
    """A copy of the library, built with its Makefile, for generated Makefiles to link against."""
    tree = os.path.join(tmp, "tree"); os.makedirs(tree)
    shutil.copytree(os.path.join(REPO, "pico-cnn"), os.path.join(tree, "pico-cnn"), ignore=shutil.ignore_patterns("*.o", "*.a"))
    asan = "CFLAGS=-std=c++11 -w -O1 -fsanitize=address -fno-omit-frame-pointer -DINFO"
    rc, out = sh(["make", "-j8", "-C", os.path.join(tree, "pico-cnn"), asan])
    if rc:
        raise HarnessError("the library's Makefile fails:\n" + out[-2000:])
    return tree, asan


def main_programs(rep, tmp, res, bad):
    """Builds the stand-alone programs of the networks the specification runs them for, with the generated
    Makefile in a copy of the source tree, and runs them."""
    import struct
    todo = [r for r in res if r["produced"] and any(a["op"] == "main" for a in r["rec"]["hist"])]
    if not todo:
        return
    tree, asan = library_tree(tmp)
    dirs = []
    for i, r in enumerate(todo):
        d = os.path.join(tree, "onnx_import", "generated_code", "net%d" % i)
        shutil.copytree(r["gen"], d); dirs.append(d)

    def build(i):
        # the first builds the library again, the way a user does; the others take it as it is
        return sh(["make", "-C", dirs[i], asan] + (["-o", "libpico-cnn.a"] if i else []) + ["dummy_input", "reference_input"])
    outs = [build(0)]
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        outs += list(ex.map(build, range(1, len(todo))))
    jobs = []
    for i, r in enumerate(todo):
        if outs[i][0]:
            bad.append((r, "make dummy_input reference_input fails: %s" % short_error(outs[i][1])))
            continue
        hist, lg = r["rec"]["hist"], r["rec"]["log"]
        for k, a in enumerate(hist):
            if a["op"] == "main":
                jobs.append((i, k, r, a, lg[k][0]))

    def run(job):
        i, k, r, a, e = job
        d = os.path.join(dirs[i], "run%d" % k); os.makedirs(d)
        f = a["files"]
        wts = open(os.path.join(dirs[i], "network.weights.bin"), "rb").read()
        sh_ = e["inp"]["sh"]
        dims = [1, sh_[1], sh_[2], sh_[3]] if len(sh_) == 4 else [1, sh_[1], 1, sh_[2]] if len(sh_) == 3 else [1, 1, sh_[0], sh_[1]]
        inp = b"FCI\n" + struct.pack("<4I", *dims) + struct.pack("<%df" % len(e["inp"]["d"]), *spec_floats(e["inp"])) + b"end\n"
        rv = spec_floats(e["ref"])
        if e["sp"]:
            rv[a["el"] - 1] = float(e["sp"])
        ref = b"FCO\n" + struct.pack("<2I", 1, len(rv)) + struct.pack("<%df" % len(rv), *rv) + b"end\n"
        w = lambda n, b: open(os.path.join(d, n), "wb").write(b)
        if f != "noweights": w("weights", wts[:-3] if f == "cutweights" else wts)
        if f != "noinput": w("input", b"FCO" + inp[3:] if f == "badinput" else inp)
        if f != "noref": w("ref", ref[:-5] if f == "badref" else ref)
        long = "./" * 700 if f == "longpaths" else ""
        args = [os.path.join("..", a["prog"])] + ([long + "weights", "3", str(k % 2)] if a["prog"] == "dummy_input" else [long + "weights", long + "input", long + "ref"])
        p = subprocess.run(args, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=120, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
        what = "%s (files %s, reference %s)" % (a["prog"], f, e["sp"] or "off by %d/2048" % a["del"])
        if p.returncode < 0 or "AddressSanitizer" in p.stderr:
            return (r, "%s crashes: %s" % (what, next((l for l in p.stderr.splitlines() if "ERROR" in l), "status %d" % p.returncode)))
        v = e["verdict"]
        err = "\n".join(l for l in p.stderr.splitlines() if l.strip() and not l.startswith("[WARNING]"))
        if v == "agree" and (p.returncode or err):
            return (r, "%s reports a failure where it has to report agreement: status %d, %s" % (what, p.returncode, err[:200]))
        if v == "differ" and not p.returncode and not err:
            return (r, "%s reports agreement with a reference that differs" % what)
        if v == "fail" and not p.returncode:
            return (r, "%s ends successfully" % what)
        return None
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        bad += [b for b in ex.map(run, jobs) if b]
    rep.add("stand_alone_runs", len(jobs))
    shutil.rmtree(tree, ignore_errors=True)


def import_cases(rep, tmp, cases, exe, env=None, values=True, refuse=True, runs=True):
    """The whole way for one file of scenarios.  Violations go to the report.  Returns the number of
    networks that were replayed."""
    out = os.path.join(tmp, "imported"); os.makedirs(out)
    res = import_models(cases, out)
    log("imported %d models, %d networks" % (len(res), sum(r["produced"] for r in res)))
    bad = []
    for r in res:
        rec = r["rec"]
        bad += [(r, m) for m in r["steps"]]
        if rec["verdict"] == "accept" and not r["produced"]:
            bad.append((r, "the importer refuses a supported model: %s" % r["said"]))
        elif rec["verdict"] == "refuse" and refuse:
            if r["produced"]:
                bad.append((r, "the importer produces a network for a model it has to refuse"))
        if not r["produced"] and rec["verdict"] != "accept" and refuse and not r["said"]:
            bad.append((r, "the importer produces nothing, but reports no error either"))
    live = [r for r in res if r["produced"] and r["rec"]["verdict"] != "refuse"]
    n = Nets(tmp)
    texts = n.build(live)
    log("compiled %d different networks" % texts)
    jl = os.path.join(tmp, "net_cases.jsonl")
    idx = []
    with open(jl, "w") as f:
        for r in sorted(live, key=lambda r: r["so"] or ""):
            if r["so"] is None:
                bad.append((r, "the generated network does not compile: %s" % short_error(r["error"])))
                continue
            rec = r["rec"]
            f.write(json.dumps({"so": r["so"], "fn": r["fn"], "weights": os.path.join(r["gen"], "network.weights.bin"),
                                "hist": rec["hist"], "log": rec["log"], "params": rec["params"]}) + "\n")
            idx.append(r)
    if idx and runs:
        fails, done, total = drive(exe, "net", jl, env=env)
        if fails:
            log("%d behaviours failed, confirming" % len(fails))
            lines = open(jl).read().splitlines()
            one = os.path.join(tmp, "one.jsonl")
            anew = Again(exe, "net", jl, env)
            for k, msg in fails[:6]:
                open(one, "w").write(lines[k] + "\n")
                again, _, _ = drive(exe, "net", one, jobs=1, env=env)
                if not again and k not in anew():
                    raise HarnessError("failure of model %d did not repeat: %s" % (idx[k]["k"], msg))
            bad += [(idx[k], msg) for k, msg in fails]
    main_programs(rep, tmp, res, bad)
    rep.add("traces_validated_against_impl", len(res))
    rep.add("models_imported", len(res))
    rep.add("networks_generated_and_replayed", len(idx))
    rep.add("models_refused", sum(1 for r in res if not r["produced"]))
    for r, msg in bad:
        rep.violation("model %d %s: %s" % (r["k"], describe(r["rec"]), msg), r["rec"])
    for i in range(0, len(res), max(1, len(res) // 3)):
        rep.sample(describe(res[i]["rec"]))
    shutil.rmtree(out, ignore_errors=True); shutil.rmtree(n.dir, ignore_errors=True)
    return res, bad
