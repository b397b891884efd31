#!/usr/bin/env python3
"""run_tools.py CASES.jsonl OUTDIR JOBS: the histories of PicoTools.tla with the tools of the working tree, each
history in a process and a directory of its own, each tool in a process of its own.  OUTDIR/<k>.json tells
per step how the tool ended, what the directory holds, and what the model was run on."""
import glob, io, json, os, runpy, shutil, signal, struct, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PICO_REPO", "/repo")
sys.path[:0] = [os.path.join(HERE, "stubs")]
import numpy as np
if not hasattr(np, "float"):
    np.float = float
import onnx, onnx.helper, onnx.numpy_helper
import toolbox
MIME = {"wav": "audio/x-wav", "jpeg": "image/jpeg", "pgm": "image/x-portable-greymap", "png": "image/png", "text": "text/plain"}
T = onnx.TensorProto


def tensor_file(a):
    v = np.frombuffer(bytes(a["b"]), dtype="<f4")
    p = T(name="t", dims=list(a["sh"]))
    ty = a["ty"]
    if ty == "raw":
        p.data_type = T.FLOAT; p.raw_data = v.tobytes()
    elif ty == "float_data":
        p.data_type = T.FLOAT; p.float_data = list(v)
    elif ty == "double":
        p.data_type = T.DOUBLE; p.double_data = [float(x) for x in v]
    elif ty == "int32":
        p.data_type = T.INT32; p.int32_data = [int(x) for x in v]
    elif ty == "uint8":
        p.data_type = T.UINT8; p.raw_data = v.astype(np.uint8).tobytes()
    elif ty == "int64":
        p.data_type = T.INT64; p.int64_data = [int(x) for x in v]
    elif ty == "half":
        p.data_type = T.FLOAT16; p.raw_data = v.astype(np.float16).tobytes()
    elif ty == "int16":
        p.data_type = T.INT16; p.raw_data = v.astype(np.int16).tobytes()
    else:
        raise ValueError(ty)
    return p.SerializeToString()


NP = {"f": np.float32, "d": np.float64, "i32": np.int32, "i64": np.int64}


def array(t):
    v = np.array(t["v"], dtype=np.float64)
    v = (v / 32768) if t["ty"] in ("f", "d") else v
    for code, x in ((1000000000, np.nan), (900000000, np.inf), (-900000000, -np.inf)):
        v[np.array(t["v"]) == code] = x
    return v.astype(NP[t["ty"]]).reshape(t["sh"])


def records(d, rec):
    """The recorded tensors lie beside the model the next tool is given."""
    shutil.rmtree(d + "test_data_set_0", ignore_errors=True)
    for n, t in rec.items():
        put(d + "test_data_set_0/" + n + ".pb", onnx.numpy_helper.from_array(array(t)).SerializeToString())


REC = {}


def some_model(path, **k):
    out = onnx.helper.make_tensor_value_info("out", T.FLOAT, [1, 1])
    put(path, onnx.ModelProto(ir_version=4, graph=onnx.GraphProto(name="g", output=[out])).SerializeToString())


def put(path, b):
    os.makedirs(os.path.dirname(path) or ".", exist_ok=True)
    with open(path, "wb") as f:
        f.write(b)


def tool(script, argv):
    p = os.fork()
    if p == 0:
        st = {"raised": None, "exit": 0}
        try:
            np.random.seed(None)          # a process of its own starts with a generator of its own
            sys.argv = [script] + argv
            runpy.run_path(os.path.join(REPO, "util", script), run_name="__main__")
        except SystemExit as e:
            st["exit"] = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
        except BaseException as e:
            st["raised"] = "%s: %s" % (type(e).__name__, str(e)[:300])
        sys.stdout.flush()
        st["runs"] = [{"sh": list(r.shape), "b": np.ascontiguousarray(r, dtype=np.float32).tobytes().hex(), "f32": bool(np.array_equal(np.asarray(r, dtype=np.float32).astype(np.float64), np.asarray(r, dtype=np.float64), equal_nan=True))} for r in toolbox.RUNS]
        st["ran"] = [[{"sh": list(r.shape), "v": [float(x) for x in r.flatten()]} for r in one] for one in toolbox.RAN]
        json.dump(st, open("../step.json", "w"))
        os._exit(0)
    os.waitpid(p, 0)
    if not os.path.exists("../step.json"):
        return {"raised": "ended without reporting", "exit": None, "runs": []}
    st = json.load(open("../step.json"))
    os.unlink("../step.json")
    return st


def step(a):
    st = {"raised": None, "exit": 0, "runs": []}
    if a["op"] == "pb":
        put(a["file"], tensor_file(a))
    elif a["op"] == "img":
        put(a["dir"] + "/" + a["n"]["stem"] + a["n"]["ext"], json.dumps(a["im"]).encode())
    elif a["op"] == "rm":
        os.unlink(a["file"] if "file" in a else a["dir"] + "/" + a["n"]["stem"] + a["n"]["ext"])
    elif a["op"] == "prep":
        st = tool("prepare_images.py", ["--directory", a["arg"], "--size"] + [str(v) for v in a["size"]] + ["--mode", a["mode"]]
                  + (["--crop_pos"] + [str(v) for v in a["pos"]] if a["pos"] else []))
    elif a["op"] == "parse":
        st = tool("parse_onnx_reference_files.py", ["--input", "."])
    elif a["op"] == "rec":
        REC[a["name"]] = a["t"]
    elif a["op"] == "unrec":
        del REC[a["name"]]
    elif a["op"] == "check":
        records(a["dir"], REC)
        some_model(a["dir"] + "net.onnx")
        toolbox.OUTPUTS[:] = [array(t) for t in a["ret"]]
        st = tool("check_onnx_model.py", ["--input", a["arg"] + "net.onnx"])
    elif a["op"] == "save":
        records(a["dir"], REC)
        m = a["stem"] + a["rest"]
        some_model(a["dir"] + m)
        toolbox.TENSORS.clear()
        toolbox.TENSORS.update({n["n"]: array(t) for n, t in zip(a["names"], a["vals"])}, out=np.zeros((1, 1), dtype=np.float32), other=np.ones(3, dtype=np.float32))
        st = tool("save_intermediate_outputs.py", ["--input", a["arg"] + m, "--input_shape"] + [str(d) for d in a["sh"]]
                  + ["--out_to_check"] + [",".join([n["n"]] + [str(d) for d in t["sh"]]) for n, t in zip(a["names"], a["vals"])])
    elif a["op"] == "gen":
        model = a["mdir"] + a["mstem"] + a["mext"]
        put(model, onnx.ModelProto(ir_version=4, graph=onnx.GraphProto(name="g")).SerializeToString())
        argv = ["--model", model, "--shape"] + [str(d) for d in a["sh"]]
        toolbox.FILES.clear()
        if a["kind"] == "random":
            argv += ["--range", str(a["lo"]), str(a["hi"]), "--seed", str(a["seed"])]
        else:
            f = a["fdir"] + a["fstem"] + a["fext"]
            put(f, b"a media file")
            m = np.array(a["media"], dtype=np.int16 if a["kind"] == "wav" else np.uint8)
            c = a["sh"][1] if len(a["sh"]) == 4 else 1
            if a["kind"] in ("pgm", "jpeg") and len(a["sh"]) == 4 and a["sh"][0] == 1:
                m = m.reshape([m.size // a["mw"], a["mw"]] if a["mw"] else [a["sh"][2], a["sh"][3]] if c == 1 else [a["sh"][2], a["sh"][3], c])
            toolbox.FILES[os.path.realpath(f)] = {"mime": MIME[a["kind"]], "array": m, "rate": 16000}
            argv += ["--file", f]
        toolbox.OUTPUTS[:] = [np.frombuffer(bytes(a["ob"]), dtype="<f4").astype(np.float32).reshape(a["osh"])]
        st = tool("generate_reference_data.py", argv)
    files = {}
    for r, ds, fs in os.walk("."):
        for f in fs:
            if f.endswith(".data") or f.endswith(".tf") or a["op"] in ("img", "rm", "prep") and "dir" in a:
                p = os.path.relpath(os.path.join(r, f), ".")
                files[p] = open(p, "rb").read().hex()
    st["files"] = files
    return st


def main():
    cases, out, jobs = sys.argv[1], sys.argv[2], int(sys.argv[3])
    running = {}
    with open(cases) as f:
        for k, line in enumerate(f):
            while len(running) >= jobs:
                p, _ = os.wait(); running.pop(p, None)
            p = os.fork()
            if p == 0:
                signal.alarm(120)
                try:
                    c = json.loads(line)
                    d = os.path.join(out, str(k)); os.makedirs(d + "/w"); os.chdir(d + "/w")
                    fd = os.open("../log", os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                    os.dup2(fd, 1); os.dup2(fd, 2)
                    sys.stdout = io.TextIOWrapper(os.fdopen(1, "wb"), line_buffering=True); sys.stderr = sys.stdout
                    try:
                        r = [step(a) for a in c["acts"]]
                    except BaseException as e:
                        r = {"harness": repr(e)}
                    with open(os.path.join(out, "%d.json" % k), "w") as o:
                        json.dump(r, o)
                    shutil.rmtree(d, ignore_errors=True)
                finally:
                    os._exit(0)
            running[p] = k
    while running:
        p, _ = os.wait(); running.pop(p, None)


if __name__ == "__main__":
    main()
