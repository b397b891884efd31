#!/usr/bin/env python3
"""describe.py FILE.onnx...: every model's graph as a record of PicoImport.tla (float values left out), one JSON line each."""
import json, os, sys
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs")]
import onnx
from onnx import numpy_helper


def tensor(sh, d):
    return {"sh": list(sh), "d": d, "m": "i", "x": 0, "q": [], "xs": [], "p": 4, "qd": 0, "off": 0, "t": 0, "a": 0}


def attribute(a):
    r = {"n": a.name, "t": "", "v": [], "s": "", "sh": []}
    if a.HasField("f"):
        m, x = a.f, 0
        while m != int(m) and x > -40:
            m, x = m * 2, x - 1
        r.update(t="float", v=[int(m), x])
    elif a.HasField("i"):
        r.update(t="int", v=[a.i])
    elif a.HasField("s"):
        r.update(t="str", s=a.s.decode())
    elif a.HasField("t"):
        v = numpy_helper.to_array(a.t)
        r.update(t="ten", v=[int(x) for x in v.ravel()], sh=list(v.shape))
    else:
        r.update(t="ints", v=list(a.ints))
    return r


for p in sys.argv[1:]:
    g = onnx.load(p).graph
    inits = []
    for t in g.initializer:
        f = t.data_type == onnx.TensorProto.FLOAT
        inits.append({"id": t.name, "k": "f" if f else "n", "t": tensor(t.dims, [] if f else [int(x) for x in numpy_helper.to_array(t).ravel()])})
    given = {t.name for t in g.initializer}
    dims = lambda v: [d.dim_value for d in v.type.tensor_type.shape.dim]
    print(json.dumps({"nm": os.path.basename(p).split(".")[0], "inp": [{"id": v.name, "sh": dims(v)} for v in g.input if v.name not in given], "outs": [v.name for v in g.output],
                      "outsh": [dims(v) for v in g.output],
                      "nodes": [{"n": n.name, "op": n.op_type, "ins": list(n.input), "outs": list(n.output), "at": [attribute(a) for a in n.attribute]} for n in g.node],
                      "inits": inits, "vi": "all", "cls": "accept", "inin": True}))
