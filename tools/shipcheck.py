"""C32: the models that come with the repository reproduce the reference outputs that come with them."""
import concurrent.futures, glob, os, shutil, struct, subprocess
from vlib import *
import netlib


def shipped(tmp):
    """What comes with the repository: every model that has a pair of input and output data beside it."""
    out = []
    for d in sorted(glob.glob(os.path.join(REPO, "data", "*"))):
        models = sorted(glob.glob(os.path.join(d, "*.onnx")))
        data = []
        for i in sorted(glob.glob(os.path.join(d, "*input.data"))):
            o = i[:-len("input.data")] + "output.data"
            if os.path.exists(o):
                ib, ob = open(i, "rb").read(), open(o, "rb").read()
                n = struct.unpack("<I", ob[8:12])[0]
                data.append({"inp": i, "ref": o, "insh": list(struct.unpack("<4I", ib[4:20])), "out": [int(round(v * 2048)) for v in struct.unpack("<%df" % n, ob[12:12 + 4 * n])]})
        for m in models:
            if data:
                r = subprocess.run([netlib.PYTHON, os.path.join(VERIF, "importer", "describe.py"), m], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
                if r.returncode:
                    raise HarnessError("cannot read %s:\n%s" % (m, r.stderr[-2000:]))
                out.append({"m": json.loads(r.stdout), "src": m, "data": data})
    if not out:
        raise HarnessError("no models in %s/data" % REPO)
    p = os.path.join(tmp, "shipped.json")
    json.dump(out, open(p, "w"))
    return p


def ship_cases(rep, tmp, cases):
    res = netlib.import_models(cases, os.path.join(tmp, "imported"))
    bad = []
    for r in res:
        bad += [(r, m) for m in r["steps"]]
        if not r["produced"]:
            bad.append((r, "the importer refuses it: %s" % r["said"]))
    live = [r for r in res if r["produced"]]
    tree, asan = netlib.library_tree(tmp)
    jobs = []
    for i, r in enumerate(live):
        d = os.path.join(tree, "onnx_import", "generated_code", r["rec"]["model"]["nm"] + str(i))
        shutil.copytree(r["gen"], d)
        rc, out = sh(["make", "-C", d, asan] + (["-o", "libpico-cnn.a"] if i else []) + ["dummy_input", "reference_input"])
        if rc:
            bad.append((r, "make dummy_input reference_input fails: %s" % netlib.short_error(out))); continue
        jobs += [(r, d, None)] + [(r, d, x) for x in r["rec"]["runs"]]

    def run(job):
        r, d, x = job
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0")
        if x is None:
            p = subprocess.run(["./dummy_input", "network.weights.bin", "2", "0"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=300, env=env)
            return (r, "dummy_input ends with status %d: %s" % (p.returncode, p.stderr[-300:])) if p.returncode or "AddressSanitizer" in p.stderr else None
        ref = bytearray(open(x["ref"], "rb").read())
        o = 12 + 4 * (x["el"] - 1)
        ref[o:o + 4] = struct.pack("<f", struct.unpack("<f", ref[o:o + 4])[0] + x["del"] / 2048.0)
        f = os.path.join(d, "ref_%d_%d_%d_%d" % (x["i"], x["j"], x["el"], x["del"]))
        open(f, "wb").write(ref)
        p = subprocess.run(["./reference_input", "network.weights.bin", x["inp"], f], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=300, env=env)
        err = "\n".join(l for l in p.stderr.splitlines() if l.strip() and not l.startswith("[WARNING]"))
        what = "reference_input on %s with %s%s" % (os.path.basename(x["inp"]), os.path.basename(x["ref"]), ", element %d off by %d/2048" % (x["el"], x["del"]) if x["del"] else "")
        if p.returncode < 0 or "AddressSanitizer" in err:
            return (r, "%s crashes: %s" % (what, err[:300]))
        if x["verdict"] == "agree" and (p.returncode or err):
            return (r, "%s does not agree: status %d, %s" % (what, p.returncode, err[:300]))
        if x["verdict"] == "differ" and not p.returncode and not err:
            return (r, "%s agrees" % what)
        return None
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        bad += [b for b in ex.map(run, jobs) if b]
    rep.add("traces_validated_against_impl", len(res))
    rep.add("reference_runs", len(jobs))
    for r in res:
        rep.sample("%s: %d nodes, %d reference runs" % (r["rec"]["src"].replace(REPO + "/", ""), len(r["rec"]["model"]["nodes"]), len(r["rec"]["runs"])))
    for r, msg in bad:
        rep.violation("%s: %s" % (r["rec"]["src"].replace(REPO + "/", ""), msg), {k: v for k, v in r["rec"].items() if k != "model"})
    return bad
