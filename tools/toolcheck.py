"""C30: what the reference data tools leave behind, against PicoTools.tla."""
import collections, os, shutil, struct, subprocess
from vlib import *
from netlib import PYTHON, net_driver


def _floats(b):
    return struct.unpack("<%df" % (len(b) // 4), b)


def _same_values(a, b):
    """Bit for bit; only a NaN's quiet bit may differ (a conversion to double and back sets it)."""
    return len(a) == len(b) and all(x == y or (x != x and y != y) for x, y in zip(_floats(a), _floats(b))) and \
        all(a[i] == b[i] or (_floats(a[i & ~3:(i & ~3) + 4])[0] != _floats(a[i & ~3:(i & ~3) + 4])[0]) for i in range(len(a)))


def _close(x, num, den):
    e = num / den
    return abs(x - e) <= abs(e) * 1.5e-7 + 1e-45


def generated(name, want, got, runs):
    """A generated input file: returns what is wrong with it, and its values."""
    c, h, w = want["chw"]; n = c * h * w
    head = b"FCI\n" + struct.pack("<4I", 1, c, h, w)
    if got[:20] != head or len(got) != 24 + 4 * n or got[-4:] != b"end\n":
        return "%s is no reference input of shape 1x%dx%dx%d: %d bytes, header %s" % (name, c, h, w, len(got), got[:20].hex()), None
    b = got[20:-4]; v = _floats(b); r = want["rule"]
    if len(runs) != 1 or runs[0]["sh"] != want["sh"]:
        return "the model was run %d times, on shapes %s, expected once on %s" % (len(runs), [x["sh"] for x in runs], want["sh"]), None
    if bytes.fromhex(runs[0]["b"]) != b or not runs[0]["f32"]:
        return "%s does not hold what the model was run on" % name, None
    if r["k"] == "uniform" and not all(r["lo"] <= x <= r["hi"] for x in v):
        return "%s holds values outside %s..%s" % (name, r["lo"], r["hi"]), None
    if r["k"] == "uniform" and n > 8 and len(set(v)) < n // 2:
        return "the random values of %s repeat" % name, None
    if r["k"] == "ratio":
        for i, x in enumerate(v):
            if not _close(x, r["num"][i], r["den"]):
                return "value %d of %s is %r, expected %d/%d" % (i, name, x, r["num"][i], r["den"]), None
    if r["k"] == "bag" and collections.Counter(v) != collections.Counter(float(x) for x in r["num"]):
        return "%s does not hold the image's values" % name, None
    return None, b


def check_case(c, res, reads):
    """The first thing that is wrong with a history, or None; what was written goes to reads."""
    seeds, before = {}, {}
    for i, (a, lg, st) in enumerate(zip(c["acts"], c["log"], res)):
        what = "step %d %s" % (i + 1, a["op"])
        ended = "ended with %s" % (st["raised"] or "status %s" % st["exit"])
        if lg["st"] == "ok" and (st["raised"] or st["exit"]):
            return "%s %s" % (what, ended)
        if lg["st"] == "fail" and not st["raised"] and not st["exit"]:
            return "%s ends successfully" % what
        got = {n: bytes.fromhex(h) for n, h in st["files"].items()}
        want = {os.path.normpath(n): f for n, f in (lg["files"] or {}).items()}
        extra = set(got) - set(want)
        if extra:
            return "%s leaves files that should not be there: %s" % (what, sorted(extra))
        for n, f in want.items():
            if f["k"] == "any":
                continue
            if n not in got:
                return "%s does not leave %s" % (what, n)
            if got[n] == before.get(n) and a["op"] not in ("parse", "gen"):
                continue
            if f["k"] == "data":
                b = bytes(f["b"])
                k = 20 if b[:4] == b"FCI\n" else 12
                g = got[n]
                if g[:k] != b[:k] or g[-4:] != b[-4:] or not _same_values(g[k:-4], b[k:-4]):
                    return "%s: %s holds %d bytes %s..., expected %d bytes %s..." % (what, n, len(g), g[:k + 8].hex(), len(b), b[:k + 8].hex())
                if got[n] != before.get(n):
                    dims = struct.unpack("<%dI" % ((k - 4) // 4), b[4:k])
                    reads.append(("refin" if k == 20 else "refout", list(dims), g))
            elif f["k"] == "gen" and a["op"] == "gen" and got[n] != before.get(n):
                msg, v = generated(n, f, got[n], st["runs"])
                if msg:
                    return "%s: %s" % (what, msg)
                reads.append(("refin", [1] + list(f["chw"]) if len(f["sh"]) == 4 else list(f["sh"]), got[n]))
                if a["kind"] == "random":
                    key = (tuple(a["sh"]), a["lo"], a["hi"], a["seed"])
                    if seeds.setdefault(key, v) != v:
                        return "%s: the same seed gave other values" % what
            elif f["k"] == "gen" and a["op"] != "gen" and n in before and before[n] != got[n]:
                return "%s changes %s" % (what, n)
        before = got
    return None


def picture_cases(rep, tmp, cases):
    """C35: the directory tree after each step, against PicoPictures.tla."""
    out = os.path.join(tmp, "pics"); os.makedirs(out)
    run_cases(cases, out)
    log("ran the tool")
    with open(cases) as f:
        for k, l in enumerate(f):
            c = json.loads(l); p = os.path.join(out, "%d.json" % k)
            rep.add("traces_validated_against_impl", 1)
            what = lambda n: "; ".join("%s %s %s" % (a["op"], a.get("arg") or a["dir"] + "/" + a["n"]["stem"] + a["n"]["ext"], "%s %s %s" % (a["mode"], a["size"], a["pos"]) if "mode" in a else "") for a in c["acts"][:n])[-300:]
            if not os.path.exists(p):
                rep.violation("key=%s %s: the history did not end (hang or crash)" % (c["key"], what(99)), c); continue
            res = json.load(open(p))
            if isinstance(res, dict):
                raise HarnessError("history %d: %s" % (k, res["harness"]))
            msg = None
            for i, (lg, st) in enumerate(zip(c["log"], res)):
                got = {os.path.normpath(n): bytes.fromhex(h) for n, h in st["files"].items()}
                want = {os.path.normpath(n): v for n, v in (lg or {}).items()}
                for n in sorted(set(got) | set(want)):
                    alts = want.get(n, [{"w": 0, "h": 0, "m": "", "px": [], "f": []}])
                    try:
                        g = json.loads(got[n]) if n in got else {"w": 0, "h": 0, "m": "", "px": [], "f": []}
                    except ValueError:
                        g = {"w": -1, "bytes": got[n][:60].hex()}
                    if g not in alts:
                        show = lambda d: "no file" if d["w"] == 0 else "a %s image of %sx%s %s" % (d.get("m"), d["w"], d.get("h"), d.get("px", [])[:30])
                        msg = "%s is %s, expected %s (%s)" % (n, show(g), " or ".join(show(x) for x in alts), st["raised"] or "ended"); break
                if msg:
                    break
            if msg:
                rep.violation("key=%s %s: %s" % (c["key"], what(i + 1), msg), c)
            elif k % 200 == 0:
                rep.sample("key=%s %s" % (c["key"], what(99)))


def model_tool_cases(rep, tmp, cases):
    """C36: verdicts, what the model was run on and text files after each step, against PicoModelTools.tla."""
    out = os.path.join(tmp, "mtools"); os.makedirs(out)
    run_cases(cases, out)
    log("ran the tools")
    scale = lambda t: [x / 32768.0 for x in t["v"]] if t["ty"] in ("f", "d") else [float(x) for x in t["v"]]
    with open(cases) as f:
        for k, l in enumerate(f):
            c = json.loads(l); p = os.path.join(out, "%d.json" % k)
            rep.add("traces_validated_against_impl", 1)
            if not os.path.exists(p):
                rep.violation("key=%s: the history did not end (hang or crash)" % c["key"], c); continue
            res = json.load(open(p))
            if isinstance(res, dict):
                raise HarnessError("history %d: %s" % (k, res["harness"]))
            msg = None
            for i, (a, lg, st) in enumerate(zip(c["acts"], c["log"], res)):
                if a["op"] not in ("check", "save"):
                    continue
                ended = "ended with %s" % (st["raised"] or "status %s" % st["exit"])
                if lg["st"] == "ok" and (st["raised"] or st["exit"]):
                    msg = ended + ("; the recorded outputs agree with the returned ones" if a["op"] == "check" else "")
                elif lg["st"] == "fail" and not st["raised"] and not st["exit"]:
                    msg = "ended successfully although a recorded output differs from what the model returned"
                elif len(st["ran"]) != 1:
                    msg = "ran the model %d times (%s)" % (len(st["ran"]), ended)
                elif [x["sh"] for x in st["ran"][0]] != [t["sh"] for t in lg["ran"]] or [x["v"] for x in st["ran"][0]] != [scale(t) for t in lg["ran"]]:
                    msg = "ran the model on %s, expected %s" % (str(st["ran"][0])[:300], str(lg["ran"])[:300])
                else:
                    got = {os.path.normpath(n): bytes.fromhex(h).decode("latin-1") for n, h in st["files"].items()}
                    want = lg["txt"] or {}
                    if set(got) != set(want):
                        msg = "leaves %s, expected %s" % (sorted(got), sorted(want))
                    for n in sorted(want):
                        try:
                            v = [float(x) for x in got.get(n, "").split()]
                        except ValueError:
                            v = got[n][:200]
                        if not msg and v != [x / 32768.0 for x in want[n]]:
                            msg = "%s holds %s, expected %s" % (n, str(v)[:200], str([x / 32768.0 for x in want[n]])[:200])
                if msg:
                    break
            what = "; ".join("%s %s" % (x["op"], x.get("name") or str(x.get("ret") or x.get("names"))[:150]) for x in c["acts"][:i + 1])[-400:]
            if msg:
                rep.violation("key=%s %s: step %d %s" % (c["key"], what, i + 1, msg), c)
            elif k % 40 == 0:
                rep.sample("key=%s %s" % (c["key"], what))


def run_cases(cases, out):
    r = subprocess.run([PYTHON, os.path.join(VERIF, "importer", "run_tools.py"), cases, out, str(JOBS)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors="replace", timeout=600)
    if r.returncode:
        raise HarnessError("the tools could not be started:\n" + r.stdout[-3000:])


def tool_cases(rep, tmp, cases, exe):
    out = os.path.join(tmp, "tools"); os.makedirs(out)
    run_cases(cases, out)
    log("ran the tools")
    bad, reads, n = [], {}, 0
    with open(cases) as f:
        for k, l in enumerate(f):
            c = json.loads(l); p = os.path.join(out, "%d.json" % k); n += 1
            if not os.path.exists(p):
                bad.append((c, "the history did not end (hang or crash)")); continue
            res = json.load(open(p))
            if isinstance(res, dict):
                raise HarnessError("history %d: %s" % (k, res["harness"]))
            rs = []
            msg = check_case(c, res, rs)
            if msg:
                bad.append((c, msg))
            for what, sh_, b in rs:
                reads.setdefault((what, tuple(sh_), b), c)
            if k % 150 == 0:
                rep.sample("key=%s %s" % (c["key"], "; ".join("%s %s" % (a["op"], a.get("file") or a.get("kind") or "") for a in c["acts"])[:200]))
    # the library reads every different file back
    jl = os.path.join(tmp, "reads.jsonl"); own = []
    with open(jl, "w") as o:
        for (what, sh_, b), c in reads.items():
            vals = b[20:-4] if what == "refin" else b[12:-4]
            z = [0] * len(vals)
            o.write(json.dumps({"key": c["key"], "acts": [{"op": "tnew", "id": "x", "sh": list(sh_), "b": z}, {"op": "put", "file": "f", "b": list(b)}, {"op": what, "file": "f", "id": "x"}],
                                "log": [{"o": {"k": "ok"}, "w": {}, "u": []}, {"o": {"k": "ok"}, "w": {}, "u": []}, {"o": {"k": "ret", "ok": True}, "w": {"x": list(vals)}, "u": []}]}) + "\n")
            own.append((c, what, sh_))
    fails, done, total = drive(exe, "io", jl)
    for k, msg in fails:
        c, what, sh_ = own[k]
        bad.append((c, "the library does not read the written file of shape %s back: %s" % ("x".join(map(str, sh_)), msg)))
    rep.add("traces_validated_against_impl", n)
    rep.add("written_files_read_back_by_the_library", len(own))
    for c, msg in bad:
        rep.violation("key=%s %s: %s" % (c["key"], "; ".join("%s %s" % (a["op"], a.get("file") or "%s %s" % (a.get("kind", ""), a.get("sh", ""))) for a in c["acts"])[:300], msg), c)
    return bad
