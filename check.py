#!/usr/bin/env python3
"""check.py <property>: decide one property (see DESIGN.md)."""
import json, os, shutil, sys, tempfile, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
sys.dont_write_bytecode = True
import vlib
from vlib import *
import netlib, toolcheck, shipcheck, progcheck
import concurrent.futures

GEN_INV = ("TypeOK", "RequestsWellFormed", "Exact")
GEN_PROP = ("Frame",)
EXTRA_INV = {"GenC17": ("RefusedAtTheEnd",), "GenC18": ("AllLoad",), "GenC19": ("Refused",), "GenC20": ("AllLoad", "NoneLoads"), "GenC34": ("Balanced",)}
LIFE_QUICK, LIFE_THOROUGH = (18, 19, 20, 21, 23, 24), range(18, 25)
IO_FLAGS = ("-DWITH_IO",)


def gen_tlc(m, cases, consts={}):
    c = {"Keys": "<- GKeys", "Cases": "<- GCases", "Emit": "TRUE", "Seed": SEED, "Tier": 1 if TIER == "thorough" else 0}
    if m == "GenC15":
        c["Window"] = '"onnx"'
    c.update(consts)
    return Tlc(m, c, cases, GEN_INV + EXTRA_INV.get(m, ()), GEN_PROP, view="View").wait()


def file_tlc(m, cases):
    c = {"Keys": "<- GKeys", "Cases": "<- GCases", "Emit": "TRUE", "Seed": SEED, "Tier": 1 if TIER == "thorough" else 0}
    return Tlc(m, c, cases, ("TypeOK", "NoPrefixAccepted") + EXTRA_INV.get(m, ()), ("FrameF",), view="View").wait()


def gen_check(prop, modules, consts={}, excuse=None, io=False, models=(), env=None, files=(), pure=()):
    """TLC enumerates the scenarios of the given generator modules (`files`: of the file interfaces); the driver replays them."""
    rep = Report(prop)
    tmp = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    try:
        with concurrent.futures.ThreadPoolExecutor(1) as ex:
            fut = ex.submit(build_driver, extra_flags=IO_FLAGS if io or files else ())
            for m, inv, props, *more in models:
                t = Tlc(m, dict({"Seed": SEED, "Tier": 1 if TIER == "thorough" else 0}, **(more[0] if more else {})), os.path.join(tmp, "model"), inv, props, view="View").wait()
                rep.add("states", t.states); rep.add("transitions", t.transitions)
                log("%s: %d states in %.1fs" % (m, t.states, t.wall))
            for m in list(modules) + list(files) + list(pure):
                cases = os.path.join(tmp, m + ".jsonl")
                fi = io or m in files
                t = file_tlc(m, cases) if fi else gen_tlc(m, cases, consts)
                rep.add("states", t.states); rep.add("transitions", t.transitions)
                log("%s: %d states, %d behaviours in %.1fs" % (m, t.states, t.n, t.wall))
                if t.n == 0:
                    raise HarnessError("no behaviours from " + m)
                exe = fut.result()
                replay_and_report(rep, exe, cases, mode="io" if fi else "replay", env=dict(env or {}, PURE="1") if m in pure else env, excuse=(lambda f: excuse(rep, exe, cases, f)) if excuse else None)
                log("replayed")
                os.unlink(cases)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return rep.finish()


def lrn_excuse(rep, exe, cases, fails):
    """Failures of even-sized windows are the known finding exactly when the library's own symmetric
    window (and nothing else) explains them."""
    known = load_known().get(("C15", "lrn-even-n"))
    if not known:
        return fails
    bad = {k for k, _ in fails}
    norm = lambda c: json.dumps([c["key"], c["acts"]]).replace('"sym"', '"onnx"')
    mine = {}
    for i, l in enumerate(open(cases)):
        if i in bad:
            c = json.loads(l)
            if any(a["op"] == "mk" and a["layer"]["kind"] == "lrn" and a["layer"]["n"] % 2 == 0 for a in c["acts"]):
                mine[norm(c)] = i
    alt = cases + ".sym"
    gen_tlc("GenC15", alt, {"Window": '"sym"'})
    idx = {}
    with open(alt + ".sel", "w") as o:
        for l in open(alt):
            k = norm(json.loads(l))
            if k in mine:
                idx[len(idx)] = mine[k]
                o.write(l)
    again, _, _ = drive(exe, "replay", alt + ".sel") if idx else ([], 0, 0)
    still = {idx[k] for k, _ in again}
    excused = set(idx.values()) - still
    if excused:
        rep.known.append("lrn-even-n: %s (%d behaviours)" % (known, len(excused)))
    return [(k, m) for k, m in fails if k not in excused]


CHECKS = {}
LOOPS = {"C02": "pad", "C04": "concat", "C06": "conv", "C07": "conv", "C08": "max", "C09": "avg", "C10": "global", "C11": "dense"}
LOOPS_INV = ("InBounds", "OneStep", "NotYetReached", "PartialSums", "EveryElement", "Exactly", "Ends")


def loops(p):
    """The loops of the library as a state machine of its own, against the declarative definitions."""
    return [("PicoLoops", LOOPS_INV, ("OperandsKept", "Terminates"), {"Op": '"%s"' % LOOPS[p]})] if p in LOOPS else []


for _p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C33"):
    CHECKS[_p] = (lambda p: (lambda: gen_check(p, ["Gen" + p], models=loops(p))))(_p)


CHECKS["C15"] = lambda: gen_check("C15", ["GenC15"], excuse=lrn_excuse)
# besides random histories: every behaviour of the layers' own generators, judged by what it changes and depends on
CHECKS["C16"] = lambda: gen_check("C16", ["GenC16"], pure=["GenC%02d" % i for i in range(6, 16)])

# other builds of the library: as its Makefile compiles it; for speed; with its diagnostics on; with undefined behaviour trapped
BUILDS = (("makefile", ["-O2", "-march=native", "-DINFO", "-w"]),
          ("fastest", ["-O3", "-march=native", "-DDEBUG=0", "-DINFO=0", "-w"]),
          ("diagnostics", ["-O0", "-g1", "-fsanitize=address", "-DDEBUG=1", "-DINFO=1", "-w"]),
          ("trapping", ["-O1", "-g1", "-fsanitize=undefined", "-fno-sanitize=nonnull-attribute,pointer-overflow,shift-base", "-fno-sanitize-recover=all", "-DDEBUG=1", "-DINFO=0", "-w"]))


def builds_check(prop):
    rep = Report(prop)
    tmp = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    env = {"MALLOC_PERTURB_": "85", "UBSAN_OPTIONS": "exitcode=98"}
    try:
        with concurrent.futures.ThreadPoolExecutor(2) as ex:
            futs = [(n, ex.submit(build_driver, extra_flags=IO_FLAGS, flags=f, tag=n)) for n, f in BUILDS]
            for m, tlc, mode in (("Gen%s" % prop, gen_tlc, "replay"), ("Gen%sF" % prop, file_tlc, "io")):
                cases = os.path.join(tmp, m + ".jsonl")
                t = tlc(m, cases)
                rep.add("states", t.states); rep.add("transitions", t.transitions)
                log("%s: %d states, %d behaviours in %.1fs" % (m, t.states, t.n, t.wall))
                if t.n == 0:
                    raise HarnessError("no behaviours from " + m)
                for n, fut in futs:
                    replay_and_report(rep, fut.result(), cases, mode=mode, env=env, describe=lambda c: "build=%s key=%s" % (n, json.dumps(c.get("key"))))
                    log("replayed on build " + n)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return rep.finish()


CHECKS["C37"] = lambda: builds_check("C37")
READER = [("PicoReader", ("WithinFile", "StoresFit", "SuccessOnlyForWhole", "LoadsWhatIsDescribed", "WholeIsAccepted", "NeverBeyondTheTensors", "NotStuck"), ("Forward",))]
for _p in ("C18", "C19", "C20", "C21", "C22", "C23", "C24"):
    CHECKS[_p] = (lambda p: (lambda: gen_check(p, ["Gen" + p], io=True, models=READER if p in ("C18", "C19") else ())))(_p)


IMPORT_INV = ("TypeOK", "WellFormed", "ShapesAgree", "Exact", "HistoryOK", "Reproducible")


def import_check(prop, env, inv=(), refuse=False, props=()):
    """TLC generates models and histories of the networks they become; every model is imported with the
    working tree's importer, every network compiled and taken through its history."""
    rep = Report(prop)
    tmp = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    try:
        with concurrent.futures.ThreadPoolExecutor(1) as ex:
            fut = ex.submit(netlib.net_driver)
            cases = os.path.join(tmp, "cases.jsonl")
            c = {"Keys": "<- GKeys", "Cases": "<- GCases", "Emit": "TRUE", "Seed": SEED, "Tier": 1 if TIER == "thorough" else 0}
            t = Tlc("Gen" + prop, c, cases, IMPORT_INV + tuple(inv), ("SingleAssignment",) + tuple(props), view="View").wait()
            rep.add("states", t.states); rep.add("transitions", t.transitions)
            log("Gen%s: %d states, %d models with histories in %.1fs" % (prop, t.states, t.n, t.wall))
            if t.n == 0:
                raise HarnessError("no behaviours from Gen" + prop)
            netlib.import_cases(rep, tmp, cases, fut.result(), env=env, refuse=refuse)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return rep.finish()


CHECKS["C25"] = lambda: import_check("C25", {"NET_KEEP": "1"})
CHECKS["C26"] = lambda: import_check("C26", {"NET_KEEP": "1"})
CHECKS["C27"] = lambda: import_check("C27", {"NET_KEEP": "1", "NET_PARAMS": "1"})
CHECKS["C28"] = lambda: import_check("C28", {"NET_LEAKS": "1"})
CHECKS["C29"] = lambda: import_check("C29", {"NET_KEEP": "1"}, ("RefusedAsMeant",), refuse=True)


CHECKS["C31"] = lambda: import_check("C31", {"NET_KEEP": "1", "NET_PARAMS": "1"}, props=("OneAtATime",))


def pictures_check(prop, inv=("TypeOK", "WellPosed", "Centred"), props=("Sources",), judge=toolcheck.picture_cases):
    rep = Report(prop)
    tmp = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    try:
        cases = os.path.join(tmp, "cases.jsonl")
        c = {"Keys": "<- GKeys", "Cases": "<- GCases", "Emit": "TRUE", "Seed": SEED, "Tier": 1 if TIER == "thorough" else 0}
        t = Tlc("Gen" + prop, c, cases, inv, props, view="View").wait()
        rep.add("states", t.states); rep.add("transitions", t.transitions)
        log("Gen%s: %d states, %d histories in %.1fs" % (prop, t.states, t.n, t.wall))
        if t.n == 0:
            raise HarnessError("no behaviours from Gen" + prop)
        judge(rep, tmp, cases)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return rep.finish()


def tools_check(prop):
    """TLC generates directories and tool runs; the tools of the working tree are run on them."""
    rep = Report(prop)
    tmp = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    try:
        with concurrent.futures.ThreadPoolExecutor(1) as ex:
            fut = ex.submit(build_driver, extra_flags=IO_FLAGS)
            cases = os.path.join(tmp, "cases.jsonl")
            c = {"Keys": "<- GKeys", "Cases": "<- GCases", "Emit": "TRUE", "Seed": SEED, "Tier": 1 if TIER == "thorough" else 0}
            t = Tlc("Gen" + prop, c, cases, ("TypeOK", "ReadBack"), ("OnlyData",), view="View").wait()
            rep.add("states", t.states); rep.add("transitions", t.transitions)
            log("Gen%s: %d states, %d histories in %.1fs" % (prop, t.states, t.n, t.wall))
            if t.n == 0:
                raise HarnessError("no behaviours from Gen" + prop)
            toolcheck.tool_cases(rep, tmp, cases, fut.result())
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return rep.finish()


def ship_check(prop):
    rep = Report(prop)
    tmp = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    try:
        os.environ["SHIPPED"] = shipcheck.shipped(tmp)
        cases = os.path.join(tmp, "cases.jsonl")
        t = Tlc("PicoShipped", {"Keys": "{0}", "Cases": "<- NoCases", "Emit": "TRUE", "Seed": SEED, "Tier": 1 if TIER == "thorough" else 0}, cases,
                ("STypeOK", "SupportedModel", "OutputFits", "Inferred"), (), spec="SSpec", view="SView").wait()
        rep.add("states", t.states); rep.add("transitions", t.transitions)
        log("PicoShipped: %d states, %d models in %.1fs" % (t.states, t.n, t.wall))
        if t.n == 0:
            raise HarnessError("no models")
        shipcheck.ship_cases(rep, tmp, cases)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return rep.finish()


def programs_check(prop):
    rep = Report(prop)
    tmp = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    try:
        cases = os.path.join(tmp, "cases.jsonl")
        c = {"Keys": "{0}", "Cases": "<- NoCases", "Emit": "TRUE", "Seed": SEED, "Tier": 1 if TIER == "thorough" else 0, "Jobs": "<- GJobs"}
        t = Tlc("Gen" + prop, c, cases, ("PTypeOK", "Supported", "Counted", "Descending", "Once", "FirstImage"), (), spec="PSpec", view="PView").wait()
        rep.add("states", t.states); rep.add("transitions", t.transitions)
        log("Gen%s: %d states, %d programs in %.1fs" % (prop, t.states, t.n, t.wall))
        if t.n == 0:
            raise HarnessError("no programs")
        progcheck.program_cases(rep, tmp, cases)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return rep.finish()


CHECKS["C38"] = lambda: programs_check("C38")
CHECKS["C32"] = lambda: ship_check("C32")
CHECKS["C34"] = lambda: gen_check("C34", ["GenC34", "GenC16"], env={"LEAKS": "1"}, files=["GenC%d" % i for i in (LIFE_THOROUGH if TIER == "thorough" else LIFE_QUICK)])
CHECKS["C35"] = lambda: pictures_check("C35")
CHECKS["C36"] = lambda: pictures_check("C36", ("TypeOK", "Numbered", "DistinctFiles", "Reflexive"), ("OnlyNamed",), toolcheck.model_tool_cases)
CHECKS["C30"] = lambda: tools_check("C30")


def main():
    prop = sys.argv[1]
    try:
        return CHECKS[prop]()
    except HarnessError as e:
        print("HARNESS ERROR: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
