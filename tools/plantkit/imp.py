# Builds a small model, hands it to the importer of $REPO, compiles what it produced, runs it.
import io, os, subprocess, sys, contextlib
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ["REPO"]
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(HERE, "stubs"), os.path.join(REPO, "onnx_import")]
import numpy as np
if not hasattr(np, "float"):
    np.float = float
np.set_printoptions(legacy="1.25")
import onnx
import pico_cnn, backend

F, I = onnx.TensorProto.FLOAT, onnx.TensorProto.INT64


def vi(name, sh, ty=F):
    return onnx.ValueInfoProto(name=name, type=onnx.TypeProto(tensor_type=onnx.TensorTypeProto(
        elem_type=ty, shape=onnx.TensorShapeProto(dim=[onnx.Dimension(dim_value=d) for d in sh]))))


def attr(n, v):
    A = onnx.AttributeProto
    a = A(name=n)
    if isinstance(v, str): a.s = v.encode(); a.type = A.STRING
    elif isinstance(v, float): a.f = float(np.float32(v)); a.type = A.FLOAT
    elif isinstance(v, int): a.i = v; a.type = A.INT
    elif isinstance(v, np.ndarray): a.t = tensor("", v); a.type = A.TENSOR
    else: a.ints = list(v); a.type = A.INTS
    return a


def tensor(n, v):
    v = np.asarray(v)
    v = v.astype(np.int64 if v.dtype.kind == "i" else np.float32)
    return onnx.TensorProto(name=n, data_type=I if v.dtype.kind == "i" else F, dims=list(v.shape), array=v)


def node(op, ins, outs, name=None, **at):
    return onnx.NodeProto(name=name or op + "_" + outs[0], op_type=op, input=list(ins), output=list(outs), attribute=[attr(k, v) for k, v in at.items()])


def model(nodes, inputs, outputs, inits=(), infos=()):
    """inputs, outputs, infos: (name, shape); inits: (name, array)"""
    ts = [tensor(n, v) for n, v in inits]
    return onnx.ModelProto(ir_version=4, graph=onnx.GraphProto(name="graph", node=list(nodes), initializer=ts,
        input=[vi(*i) for i in inputs] + [vi(t.name, t.dims, t.data_type) for t in ts],
        output=[vi(*o) for o in outputs], value_info=[vi(*o) for o in infos]))


def imported(m, name="net"):
    """Directory of what was generated, or None; the importer's words go to the side."""
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            backend.Backend.prepare(m, name)
        except (Exception, SystemExit) as e:
            sys.stderr.write("refused: %r\n" % (e,))
            return None
    d = os.path.join("generated_code", name)
    return d if os.path.exists(os.path.join(d, "network.cpp")) else None


MAIN = r'''
#include "pico-cnn/pico-cnn.h"
#include "network.h"
#include <cstdio>
#include <cstdlib>
using namespace pico_cnn::naive;
int main(int argc, char **argv) {
    Tensor *in = new Tensor(%s), *out = new Tensor(%s);
    FILE *f = fopen(argv[1], "r");
    for (int round = 0; round < %d; round++) {
    Network *n = new Network();
    if (read_binary_weights("network.weights.bin", &n->kernels, &n->biases) != 0) { printf("weights refused\n"); return 4; }
    for (uint32_t i = 0; i < in->num_elements(); i++) { double v; if (fscanf(f, "%%lf", &v) != 1) return 5; in->access_blob(i) = v; }
    for (uint32_t i = 0; i < out->num_elements(); i++) out->access_blob(i) = -777;
    n->run(in, out);
    for (uint32_t i = 0; i < out->num_elements(); i++) printf("%%.9g\n", out->access_blob(i));
    delete n;
    }
    delete in; delete out;
}
'''
FLAGS = ["-std=c++11", "-O1", "-w", "-fsanitize=address", "-DDEBUG=0", "-DINFO=0"]


def sources():
    return [os.path.join(d, f) for d, _, fs in os.walk(os.path.join(REPO, "pico-cnn")) for f in fs if f.endswith(".cpp")]


def run(d, xs, out_shape, leaks=False):
    """Outputs of a generated network for each input, or None when it failed."""
    args = lambda s: ", ".join(str(x) for x in s)
    open(os.path.join(d, "m.cpp"), "w").write(MAIN % (args(xs[0].shape), args(out_shape), len(xs)))
    open(os.path.join(d, "in.txt"), "w").write("\n".join(repr(float(v)) for x in xs for v in x.flatten()))
    c = subprocess.run(["g++"] + FLAGS + ["-I", REPO, "-I", os.path.join(REPO, "pico-cnn"), "-I", ".", "-o", "m", "m.cpp", "network.cpp"] + sources() + ["-ljpeg"],
                       cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if c.returncode:
        print("does not compile:", c.stdout[:500]); return None
    e = dict(os.environ, ASAN_OPTIONS="detect_leaks=%d" % leaks)
    r = subprocess.run(["./m", "in.txt"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=e, timeout=120)
    if r.returncode:
        print("running failed:", r.returncode, (r.stdout + r.stderr)[-800:]); return None
    v = np.array([float(l) for l in r.stdout.split()], dtype=np.float32).reshape([len(xs)] + list(out_shape))
    return list(v)


def close(a, b, eps=1e-4):
    return a is not None and np.all(np.abs(np.asarray(a) - np.asarray(b)) <= eps * (1 + np.abs(np.asarray(b))))
