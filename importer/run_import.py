#!/usr/bin/env python3
"""run_import.py MODELS.jsonl OUTDIR JOBS: hand every model to the importer of the working tree, each in
a process and a directory of its own.  OUTDIR/<k>/status.json tells what happened; OUTDIR/<k>/generated_code
holds what was produced.  The onnx and jinja2 packages come from importer/stubs (the sandbox has neither)."""
import hashlib, io, json, math, os, runpy, shutil, signal, struct, sys, time
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PICO_REPO", "/repo")
sys.path[:0] = [os.path.join(HERE, "stubs"), os.path.join(REPO, "onnx_import")]
import numpy as np
if not hasattr(np, "float"):
    np.float = float            # the importer is written for numpy < 1.24
np.set_printoptions(legacy="1.25")   # ... whose scalars print as plain numbers
import onnx

ORD = [0.0, 1.4e-45, 1e-40, 1.17549435e-38, 1e-30, 1e-10, 1e-6, 1e-4, 1e-3, 0.1, 0.25, 0.5,
       1.0, 1.0000001, 1.5, 2.0, 3.14159, 5.9999, 6.0, 6.0001, 10.0, 88.0, 100.0, 1000.0, 9999.0,
       32767.0, 65504.0, 99999.0, 100001.0, 1e6, 8388607.5, 16777215.0, 1e9, 2147483648.0, 4294967296.0,
       1e15, 1e20, 1e25, 1e30, 1e35, 1e38, 3.4028234663852886e38]
SPECIAL = {90: 0x7f800000, -90: 0xff800000, 200: 0x80000000, 201: 0x7fc01234, 202: 0xffc00001}


def ordf(k):
    if k in SPECIAL:
        return np.uint32(SPECIAL[k]).view(np.float32)
    return np.float32(-ORD[-k] if k < 0 else ORD[k])


def array(t):
    """A specification tensor as a float32 array."""
    if t["m"] == "o":
        a = np.array([ordf(k) for k in t["d"]], dtype=np.float32)
    else:
        assert t["m"] == "i" and not t["q"] and not t["xs"], t
        a = np.array([math.ldexp(v, t["x"]) for v in t["d"]], dtype=np.float32)
    return a.reshape(t["sh"])


def attribute(a):
    A = onnx.AttributeProto
    p = A(name=a["n"])
    if a["t"] == "ints":
        p.ints = list(a["v"]); p.type = A.INTS
    elif a["t"] == "int":
        p.i = a["v"][0]; p.type = A.INT
    elif a["t"] == "float":
        p.f = float(np.float32(math.ldexp(a["v"][0], a["v"][1]))); p.type = A.FLOAT
    elif a["t"] == "ord":
        p.f = float(ordf(a["v"][0])); p.type = A.FLOAT
    elif a["t"] == "str":
        p.s = a["s"].encode(); p.type = A.STRING
    elif a["t"] == "ten":
        p.t = onnx.TensorProto(name="", data_type=onnx.TensorProto.INT64, dims=list(a["sh"]), array=np.array(a["v"], dtype=np.int64).reshape(a["sh"]))
        p.type = A.TENSOR
    elif a["t"] == "tenf":
        p.t = onnx.TensorProto(name="", data_type=onnx.TensorProto.FLOAT, dims=list(a["sh"]), array=np.array(a["v"], dtype=np.float32).reshape(a["sh"]))
        p.type = A.TENSOR
    else:
        raise ValueError(a["t"])
    return p


def value_info(name, sh, elem=onnx.TensorProto.FLOAT, batch="one"):
    dims = [onnx.Dimension(dim_value=d) for d in sh]
    if dims and batch != "one":          # what the file says about the batch dimension
        dims[0] = onnx.Dimension(dim_param="N") if batch == "sym" else onnx.Dimension(dim_value=7) if batch == "num" else onnx.Dimension()
    return onnx.ValueInfoProto(name=name, type=onnx.TypeProto(tensor_type=onnx.TensorTypeProto(elem_type=elem, shape=onnx.TensorShapeProto(dim=dims))))


def model(rec, batch="one"):
    m, shapes, consts = rec["model"], rec["shapes"], set(rec["consts"])
    nodes = [onnx.NodeProto(name=n["n"], op_type=n["op"], input=list(n["ins"]), output=list(n["outs"]), attribute=[attribute(a) for a in n["at"]]) for n in m["nodes"]]
    inits, inputs = [], [value_info(i["id"], i["sh"], batch=batch) for i in m["inp"]]
    for i in m["inits"]:
        t = i["t"]
        if i["k"] == "n":
            a, ty = np.array(t["d"], dtype=np.int64).reshape(t["sh"]), onnx.TensorProto.INT64
        else:
            a, ty = array(t), onnx.TensorProto.FLOAT
        inits.append(onnx.TensorProto(name=i["id"], data_type=ty, dims=list(t["sh"]), array=a))
        if m["inin"]:
            inputs.append(value_info(i["id"], t["sh"], ty))
    outs = [value_info(o, shapes[o], batch=batch) for o in m["outs"]]
    vi = []
    if m["vi"] == "all" and batch != "num":      # a fixed batch size other than 1: as exported, before shape inference
        done = {i["id"] for i in m["inp"]} | set(m["outs"]) | {i["id"] for i in m["inits"]}
        for n in m["nodes"]:
            for o in n["outs"]:
                if o not in done and o in shapes:
                    vi.append(value_info(o, shapes[o], onnx.TensorProto.INT64 if o in consts else onnx.TensorProto.FLOAT))
    return onnx.ModelProto(ir_version=4, graph=onnx.GraphProto(name="graph", node=nodes, initializer=inits, input=inputs, output=outs, value_info=vi))


def tree():
    """Digests of the generated networks, by name."""
    t = {}
    if os.path.isdir("generated_code"):
        for n in sorted(os.listdir("generated_code")):
            h = hashlib.sha256()
            for r, ds, fs in os.walk(os.path.join("generated_code", n)):
                ds.sort()
                for f in sorted(fs):
                    h.update(f.encode() + b"\0" + open(os.path.join(r, f), "rb").read())
            t[n] = h.hexdigest()
    return t


def command_line(rec, a):
    """onnx_to_pico_cnn.py --input FILE, in a process of its own.  Returns what it did."""
    other = rec if a["i"] == 0 else rec["others"][a["i"] - 1]
    consts = set(other["consts"])
    path = a["dir"] + a["stem"] + a["ext"]
    os.makedirs(os.path.dirname(path) or ".", exist_ok=True)
    if "src" in a:
        shutil.copy(a["src"], path)
    else:
        onnx.save(model(other, a["batch"]), path)
    onnx.shape_inference.TABLE = {k: (v, onnx.TensorProto.INT64 if k in consts else onnx.TensorProto.FLOAT) for k, v in other["shapes"].items()}
    before = tree()
    p = os.fork()
    if p == 0:
        st = {"raised": None, "exit": None}
        try:
            sys.argv = ["onnx_to_pico_cnn.py", "--input", path]
            runpy.run_path(os.path.join(REPO, "onnx_import", "onnx_to_pico_cnn.py"), run_name="__main__")
        except SystemExit as e:
            st["exit"] = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
        except BaseException as e:
            st["raised"] = "%s: %s" % (type(e).__name__, str(e)[:300])
        sys.stdout.flush()
        json.dump(st, open("step.json", "w"))
        os._exit(0)
    os.waitpid(p, 0)
    st = json.load(open("step.json")) if os.path.exists("step.json") else {"raised": "ended without reporting", "exit": None}
    if os.path.exists("step.json"):
        os.unlink("step.json")
    after = tree()
    st["names"] = sorted(after)
    st["changed"] = sorted(n for n in set(before) | set(after) if before.get(n) != after.get(n))
    return st


def child(rec, d):
    os.makedirs(d)
    os.chdir(d)
    fd = os.open("log", os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.dup2(fd, 1); os.dup2(fd, 2)
    sys.stdout = io.TextIOWrapper(os.fdopen(1, "wb"), line_buffering=True)
    sys.stderr = sys.stdout
    st = {"raised": None, "exit": None}
    if dead:
        st["raised"] = dead
        if any(a["op"] == "import" for a in rec["hist"]):
            st["steps"] = [{"raised": dead, "exit": None, "names": [], "changed": []} for a in rec["hist"] if a["op"] == "import"]
        json.dump(st, open("status.json", "w")); return
    if any(a["op"] == "import" for a in rec["hist"]):
        st["steps"] = [command_line(rec, a) for a in rec["hist"] if a["op"] == "import"]
        json.dump(st, open("status.json", "w")); return
    try:
        m = model(rec)
    except BaseException as e:
        st["harness"] = repr(e)
        json.dump(st, open("status.json", "w")); return
    try:
        backend.Backend.prepare(m, rec["model"]["nm"])
    except SystemExit as e:
        st["exit"] = e.code if isinstance(e.code, int) else 1
    except BaseException as e:
        st["raised"] = "%s: %s" % (type(e).__name__, str(e)[:300])
    sys.stdout.flush()
    json.dump(st, open("status.json", "w"))


def own_fault(e):
    """Whether the importer's own text, and not something it is given here, fails while it is loaded."""
    tb = e.__traceback__
    while tb.tb_next:
        tb = tb.tb_next
    at = e.filename if isinstance(e, SyntaxError) else tb.tb_frame.f_code.co_filename
    return str(at).startswith(REPO + os.sep) and not isinstance(e, ImportError) and "module 'onnx" not in str(e)


def main():
    global backend, dead
    models, out, jobs = sys.argv[1], sys.argv[2], int(sys.argv[3])
    # the way onnx_to_pico_cnn.py brings the operators in
    dead = None
    try:
        import pico_cnn    # noqa: F401
        import backend
    except Exception as e:
        if not own_fault(e):
            raise
        dead = "the importer cannot be loaded: %s: %s" % (type(e).__name__, str(e)[:300])
    running = {}
    with open(models) as f:
        for k, line in enumerate(f):
            rec = json.loads(line)
            while len(running) >= jobs:
                p, _ = os.wait(); running.pop(p, None)
            p = os.fork()
            if p == 0:
                signal.alarm(60)
                try:
                    child(rec, os.path.join(out, str(k)))
                finally:
                    os._exit(0)
            running[p] = k
    while running:
        p, _ = os.wait(); running.pop(p, None)


if __name__ == "__main__":
    main()
