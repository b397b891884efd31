def get_attribute_value(a):
    for f in ("f", "i", "s", "t", "g"):
        if a.HasField(f):
            return getattr(a, f)
    for f in ("floats", "ints", "strings", "tensors", "graphs"):
        if len(getattr(a, f)):
            return getattr(a, f)
    raise ValueError("Unsupported ONNX attribute: {}".format(a.name))


def strip_doc_string(proto):
    for f in proto.FIELDS + proto.REPEATED:
        if f == "doc_string":
            proto.ClearField(f)
        v = getattr(proto, f, None)
        for x in (v if isinstance(v, list) else [v]):
            if hasattr(x, "REPEATED"):
                strip_doc_string(x)


def make_tensor_value_info(name, elem_type, shape, doc_string=""):
    from . import ValueInfoProto, TypeProto, TensorTypeProto, TensorShapeProto, Dimension
    dims = [Dimension(dim_value=int(d)) if not isinstance(d, str) else Dimension(dim_param=d) for d in (shape or [])]
    return ValueInfoProto(name=name, type=TypeProto(tensor_type=TensorTypeProto(elem_type=elem_type, shape=TensorShapeProto(dim=dims))))


def tensor_dtype_to_np_dtype(t):
    import numpy as np
    from .numpy_helper import TYPES
    return np.dtype(TYPES[t])


def np_dtype_to_tensor_dtype(d):
    import numpy as np
    from .numpy_helper import TYPES
    return next(k for k, v in TYPES.items() if np.dtype(v) == np.dtype(d))


def make_attribute(key, value, doc_string=None):
    from . import AttributeProto, TensorProto, GraphProto
    a = AttributeProto(name=key)
    A = AttributeProto
    if isinstance(value, float):
        a.f = value; a.type = A.FLOAT
    elif isinstance(value, int):
        a.i = value; a.type = A.INT
    elif isinstance(value, (str, bytes)):
        a.s = value.encode() if isinstance(value, str) else value; a.type = A.STRING
    elif isinstance(value, TensorProto):
        a.t = value; a.type = A.TENSOR
    elif isinstance(value, GraphProto):
        a.g = value; a.type = A.GRAPH
    else:
        v = list(value)
        if all(isinstance(x, int) for x in v):
            a.ints = v; a.type = A.INTS
        elif all(isinstance(x, (int, float)) for x in v):
            a.floats = [float(x) for x in v]; a.type = A.FLOATS
        else:
            a.strings = [x.encode() if isinstance(x, str) else x for x in v]; a.type = A.STRINGS
    return a


def make_node(op_type, inputs, outputs, name=None, doc_string=None, domain=None, **kw):
    from . import NodeProto
    n = NodeProto(op_type=op_type, input=list(inputs), output=list(outputs))
    for k, v in (("name", name), ("doc_string", doc_string), ("domain", domain)):
        if v is not None:
            setattr(n, k, v)
    n.attribute.extend(make_attribute(k, v) for k, v in sorted(kw.items()) if v is not None)
    return n


def make_tensor(name, data_type, dims, vals, raw=False):
    from . import TensorProto
    t = TensorProto(name=name, data_type=data_type, dims=list(dims))
    if raw:
        t.raw_data = bytes(vals)
    else:
        f = {1: "float_data", 7: "int64_data", 11: "double_data", 12: "uint64_data", 13: "uint64_data"}.get(data_type, "int32_data")
        getattr(t, f).extend(vals)
    return t


def make_tensor_type_proto(elem_type, shape):
    return make_tensor_value_info("", elem_type, shape).type


def make_graph(nodes, name, inputs, outputs, initializer=None, doc_string=None, value_info=()):
    from . import GraphProto
    return GraphProto(name=name, node=list(nodes), input=list(inputs), output=list(outputs), initializer=list(initializer or []), value_info=list(value_info))


def make_model(graph, **kw):
    from . import ModelProto
    return ModelProto(ir_version=4, graph=graph, **{k: v for k, v in kw.items() if k in ModelProto.FIELDS + ModelProto.REPEATED})


def printable_graph(graph, prefix=""):
    return str(graph)


def printable_node(node, prefix="", subgraphs=False):
    return str(node)


def printable_attribute(attr, subgraphs=False):
    return str(attr)
