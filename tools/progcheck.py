"""C38: the example programs, built beside generated networks and run on data sets of the specification."""
import collections, concurrent.futures, os, re, shutil, struct, subprocess
from vlib import *
import netlib

MNIST = ("lenet", "mnist_mlp", "mnist_simple_perceptron")


def pixel(z, im, p):
    return (z[0] * im + z[1] * p + z[2] * ((im * p) % 251) + (im // 7) * (p % 5)) % z[3]


def write(path, b):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(b)


def weights(src, d, kind):
    w = open(src, "rb").read()
    if kind != "noweights":
        write(os.path.join(d, "weights"), w[:len(w) // 2] if kind == "cutweights" else w)


def mnist_files(d, run, out):
    k = run["files"]
    if k != "noimages":
        b = struct.pack(">4I", 2050 if k == "badimages" else 2051, run["n"], 28, 28)
        write(os.path.join(d, "set", "t10k-images.idx3-ubyte"), b + b"".join(bytes(pixel(run["z"], im, p) for p in range(784)) for im in range(run["n"])))
    if k != "nolabels":
        write(os.path.join(d, "set", "t10k-labels.idx1-ubyte"), struct.pack(">2I", 2051 if k == "badlabels" else 2049, run["nl"]) + bytes(out["labels"]))
    os.makedirs(os.path.join(d, "set"), exist_ok=True)
    return [] if k == "noargs" else ["weights"] if k == "onearg" else ["./" * 700 + "weights", "./" * 700 + "set"] if k == "longpaths" else ["weights", "set"]


def picture_files(d, run, mkjpeg):
    k = run["files"]
    if k != "nomeans":
        write(os.path.join(d, "means"), b"FD \n" * (k == "badmeans") + b"FD\n" + "".join(float.hex(m / 4096.0) + "\n" for m in run["means"]).encode())
    if k != "nolabels":
        write(os.path.join(d, "labels"), "".join("%s%d%s\n" % (run["stem"], c + 1, run["tail"]) for c in range(run["nl"])).encode())
    if k != "nojpeg":
        w, h = {"small": (112, 112), "tall": (224, 280), "wide": (280, 224), "large": (448, 448)}.get(k, (224, 224))
        r = subprocess.run([mkjpeg, os.path.join(d, "image.jpg"), str(w), str(h), run["mode"], "56"], input=" ".join(map(str, run["fields"])), text=True)
        if r.returncode:
            raise HarnessError("mkjpeg failed")
    pre = "./" * 700 if k == "longpaths" else ""
    args = [pre + x for x in ("weights", "means", "labels", "image.jpg")]
    return args[:3] if k == "args" else args


# ASAN watches arrays of variable length in one extra build only: see PATHS
QUIET = " --param asan-instrument-allocas=0"
PATHS = "mnist-path-buffers"


def heap_in_main(err):
    """a heap overflow in the program's own code"""
    return "heap-buffer-overflow" in err and re.search(r"^ *#[01] .* in main ", err, re.M)


def known_key(prog, run, err, ended):
    """The key of the known finding which is all that a run shows; the runs of each are among the jobs of the specification."""
    if run["files"] == "longpaths" and " stack-buffer-overflow" in err and re.search(r"^ *#[01] .* in main ", err, re.M):
        return "long-paths"
    if prog in MNIST and run["files"] == "ok" and run["n"] < 1000 and heap_in_main(err):
        return "few-images"
    if run["files"] in ("small", "tall", "wide", "large") and (heap_in_main(err) or run["files"] == "small" and ended == 0):
        return "picture-sizes"
    return None


def judge_mnist(said, out, excuse):
    m = re.search(r"Error rate: (\S+) \((\d+)/(\d+)\)", said)
    if not m:
        return "prints no error rate"
    if (int(m.group(2)), int(m.group(3))) != (out["right"], out["n"]):
        return "prints %s right of %s, expected %d of %d" % (m.group(2), m.group(3), out["right"], out["n"])
    rate = 1 - out["right"] / float(out["n"])
    if abs(float(m.group(1)) - rate) > 1e-5 and not (m.group(1) == "%.1g" % struct.unpack("f", struct.pack("f", rate)) and excuse("error-rate-digit")):
        return "prints the error rate %s for %d right of %d" % (m.group(1), out["right"], out["n"])
    rows = [re.match(r"(\d)\t((?:\d+\t){10})\s*$", l) for l in said[m.end():].splitlines()]
    rows = {int(r.group(1)): [int(x) for x in r.group(2).split()] for r in rows if r}
    want = {p: out["conf"][10 * p:10 * p + 10] for p in range(10)}
    for p in range(10):
        if rows.get(p) != want[p]:
            return "says that %d was taken for the digits %s times, expected %s" % (p, rows.get(p), want[p])
    return None


def judge_picture(said, out):
    got = [(int(a), float(b), c) for a, b, c in re.findall(r"^\[INFO\] (\d+):\t(\S+)\t(.*)$", said, re.M)]
    for k, t in enumerate(out["top"]):
        if k >= len(got):
            return "names %d outputs" % len(got)
        if got[k][0] != k + 1 or got[k][2] != t["label"] or abs(got[k][1] - t["v"] / 4096.0) > 0.02:
            return "names %s as number %d, expected %s with %s" % (got[k], k + 1, t["label"], t["v"] / 4096.0)
    return "names %d outputs" % len(got) if len(got) > 10 else None


def program_cases(rep, tmp, cases):
    mkjpeg = os.path.join(tmp, "mkjpeg")
    rc, o = sh(["g++", "-O1", "-w", os.path.join(VERIF, "driver", "mkjpeg.cpp"), "-ljpeg", "-o", mkjpeg])
    if rc:
        raise HarnessError("mkjpeg: " + o[-500:])
    res = netlib.import_models(cases, os.path.join(tmp, "imported"))
    bad = []
    for r in res:
        bad += [(r, m) for m in r["steps"]]
        if not r["produced"]:
            bad.append((r, "the importer refuses it: %s" % r["said"]))
    live = [r for r in res if r["produced"]]
    tree, asan = netlib.library_tree(tmp)
    asan += " -U_FORTIFY_SOURCE"       # ASAN tells more
    for i, r in enumerate(live):
        d = r["dir"] = os.path.join(tree, "onnx_import", "generated_code", "net%d" % i)
        shutil.copytree(r["gen"], d)
        prog = r["rec"]["prog"]
        shutil.copy(os.path.join(REPO, "examples", ("vgg" if prog.startswith("vgg") else prog) + ".cpp"), os.path.join(d, prog + ".cpp"))
        if prog not in MNIST:      # what the README says to do
            mk = os.path.join(d, "Makefile"); t = open(mk).read()
            open(mk, "w").write(re.sub(r"(?m)^(LD_LIBS *\+?=.*)$", r"\1 -ljpeg", t))

    def build(i):
        return sh(["make", "-C", live[i]["dir"], asan + QUIET * (live[i]["rec"]["prog"] in MNIST)] + (["-o", "libpico-cnn.a"] if i else []) + [live[i]["rec"]["prog"]])
    built = [build(0)] if live else []
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        built += list(ex.map(build, range(1, len(live))))
    known, met = {k: t for (p, k), t in load_known().items() if p == "C38"}, collections.Counter()

    def excuse(key):
        if key in known:
            met[key] += 1
        return key in known
    jobs = []
    for r, (rc, o) in zip(live, built):
        if rc:
            bad.append((r, "make %s fails: %s" % (r["rec"]["prog"], netlib.short_error(o)))); continue
        jobs += [(r, k) for k in range(len(r["rec"]["runs"]))]

    def one(job):
        r, k = job
        rec = r["rec"]; run, out, prog = rec["runs"][k], rec["out"][k], rec["prog"]
        d = os.path.join(r["dir"], "run%d" % k); os.makedirs(d)
        weights(os.path.join(r["dir"], "network.weights.bin"), d, run["files"])
        args = mnist_files(d, run, out) if prog in MNIST else picture_files(d, run, mkjpeg)
        p = subprocess.run([os.path.join("..", prog)] + args, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=300,
                           env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
        shutil.rmtree(d, ignore_errors=True)
        what = "run %d (files %s%s)" % (k + 1, run["files"], ", %d images" % run["n"] if prog in MNIST else "")
        key = known_key(prog, run, p.stderr, p.returncode)
        if key and excuse(key):
            return None
        if p.returncode < 0 or "AddressSanitizer" in p.stderr:
            return (r, "%s crashes: %s" % (what, next((l for l in p.stderr.splitlines() if "ERROR: Addr" in l), "status %d" % p.returncode)))
        if out["st"] == "fail":
            said = re.search(r"Error rate:|^\[INFO\] \d+:\t", p.stdout, re.M)
            return (r, "%s ends successfully" % what) if not p.returncode else (r, "%s reports results" % what) if said else None
        if p.returncode:
            return (r, "%s ends with status %d: %s" % (what, p.returncode, p.stderr[-200:]))
        m = judge_mnist(p.stdout, out, excuse) if prog in MNIST else judge_picture(p.stdout, out)
        return (r, "%s %s" % (what, m)) if m else None

    def watched(r):
        """the first run of an MNIST program once more, its arrays of variable length watched"""
        prog, run, out = r["rec"]["prog"], r["rec"]["runs"][0], r["rec"]["out"][0]
        os.remove(os.path.join(r["dir"], prog))
        rc, o = sh(["make", "-C", r["dir"], asan, "-o", "libpico-cnn.a", prog])
        if rc:
            return (r, "make %s fails: %s" % (prog, netlib.short_error(o)))
        d = os.path.join(r["dir"], "watched"); os.makedirs(d)
        weights(os.path.join(r["dir"], "network.weights.bin"), d, run["files"])
        p = subprocess.run([os.path.join("..", prog)] + mnist_files(d, run, out), cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=300,
                           env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
        shutil.rmtree(d, ignore_errors=True)
        if "AddressSanitizer" in p.stderr and not ("dynamic-stack-buffer-overflow" in p.stderr and re.search(r"^ *#[01] .* in main ", p.stderr, re.M) and excuse(PATHS)):
            return (r, "the first run crashes: %s" % next((l for l in p.stderr.splitlines() if "ERROR: Addr" in l), ""))
        return None
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        bad += [b for b in ex.map(one, jobs) if b]
        bad += [b for b in ex.map(watched, {r["rec"]["prog"]: r for r, _ in jobs if r["rec"]["prog"] in MNIST}.values()) if b]
    rep.known += ["%s: %s (%d runs)" % (k, known[k], n) for k, n in sorted(met.items())]
    shutil.rmtree(tree, ignore_errors=True)
    rep.add("traces_validated_against_impl", len(res))
    rep.add("program_runs", len(jobs))
    for r in res:
        rep.sample("%s: %d nodes, %d runs" % (r["rec"]["prog"], len(r["rec"]["model"]["nodes"]), len(r["rec"]["runs"])))
    for r, msg in bad:
        rep.violation("%s (%s): %s" % (r["rec"]["prog"], " ; ".join(n["op"] for n in r["rec"]["model"]["nodes"]), msg), {k: v for k, v in r["rec"].items() if k != "model"})
