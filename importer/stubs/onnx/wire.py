"""The protocol buffer encoding of the messages of onnx.proto."""
import struct

# class name -> {field: (number, kind)}; kinds: int, float, str, bytes, double, or a message class name
FIELDS = {
    "ModelProto": {"ir_version": (1, "int"), "producer_name": (2, "str"), "producer_version": (3, "str"), "domain": (4, "str"),
                   "model_version": (5, "int"), "doc_string": (6, "str"), "graph": (7, "GraphProto"),
                   "opset_import": (8, "OperatorSetIdProto"), "metadata_props": (14, "StringStringEntryProto")},
    "GraphProto": {"node": (1, "NodeProto"), "name": (2, "str"), "initializer": (5, "TensorProto"), "doc_string": (10, "str"),
                   "input": (11, "ValueInfoProto"), "output": (12, "ValueInfoProto"), "value_info": (13, "ValueInfoProto")},
    "NodeProto": {"input": (1, "str"), "output": (2, "str"), "name": (3, "str"), "op_type": (4, "str"), "attribute": (5, "AttributeProto"),
                  "doc_string": (6, "str"), "domain": (7, "str")},
    "AttributeProto": {"name": (1, "str"), "f": (2, "float"), "i": (3, "int"), "s": (4, "bytes"), "t": (5, "TensorProto"), "g": (6, "GraphProto"),
                       "floats": (7, "float"), "ints": (8, "int"), "strings": (9, "bytes"), "tensors": (10, "TensorProto"),
                       "graphs": (11, "GraphProto"), "doc_string": (13, "str"), "type": (20, "int")},
    "TensorProto": {"dims": (1, "int"), "data_type": (2, "int"), "float_data": (4, "float"), "int32_data": (5, "int"), "string_data": (6, "bytes"),
                    "int64_data": (7, "int"), "name": (8, "str"), "raw_data": (9, "bytes"), "double_data": (10, "double"), "uint64_data": (11, "int"),
                    "doc_string": (12, "str")},
    "ValueInfoProto": {"name": (1, "str"), "type": (2, "TypeProto"), "doc_string": (3, "str")},
    "TypeProto": {"tensor_type": (1, "TensorTypeProto"), "denotation": (6, "str")},
    "TensorTypeProto": {"elem_type": (1, "int"), "shape": (2, "TensorShapeProto")},
    "TensorShapeProto": {"dim": (1, "Dimension")},
    "Dimension": {"dim_value": (1, "int"), "dim_param": (2, "str"), "denotation": (3, "str")},
    "OperatorSetIdProto": {"domain": (1, "str"), "version": (2, "int")},
    "StringStringEntryProto": {"key": (1, "str"), "value": (2, "str")},
}
PACKED = {"float_data", "int32_data", "int64_data", "double_data", "uint64_data"}


class DecodeError(Exception):
    pass


def _varint(n):
    n &= (1 << 64) - 1
    out = bytearray()
    while True:
        b = n & 127
        n >>= 7
        out.append(b | (128 if n else 0))
        if not n:
            return bytes(out)


def _key(num, wt):
    return _varint(num << 3 | wt)


def _one(num, kind, v):
    if kind == "int":
        return _key(num, 0) + _varint(int(v))
    if kind == "float":
        return _key(num, 5) + struct.pack("<f", v)
    if kind == "double":
        return _key(num, 1) + struct.pack("<d", v)
    b = v.encode() if kind == "str" else bytes(v) if kind == "bytes" else encode(v)
    return _key(num, 2) + _varint(len(b)) + b


def _packed(num, kind, vs):
    b = b"".join(_varint(int(v)) for v in vs) if kind == "int" else struct.pack("<%d%s" % (len(vs), kind[0]), *vs)
    return _key(num, 2) + _varint(len(b)) + b


def encode(m):
    out = []
    if type(m).__name__ == "TensorProto":
        m = m.stored()
    for f, (num, kind) in FIELDS[type(m).__name__].items():
        if f in m.REPEATED:
            vs = getattr(m, f)
            if f in PACKED:
                if len(vs):
                    out.append(_packed(num, kind, vs))
            else:
                out += [_one(num, kind, v) for v in vs]
        elif m.HasField(f):
            out.append(_one(num, kind, getattr(m, f)))
    return b"".join(out)


def _read_varint(b, p):
    n = s = 0
    while True:
        if p >= len(b):
            raise DecodeError("truncated message")
        c = b[p]
        p += 1
        n |= (c & 127) << s
        s += 7
        if c < 128:
            return n, p


def _signed(n):
    return n - (1 << 64) if n >> 63 else n


def decode(m, b, classes):
    b = memoryview(bytes(b))
    by = {num: (f, kind) for f, (num, kind) in FIELDS[type(m).__name__].items()}
    p = 0
    while p < len(b):
        k, p = _read_varint(b, p)
        num, wt = k >> 3, k & 7
        if wt == 0:
            raw, p = _read_varint(b, p)
        elif wt in (1, 5):
            n = 8 if wt == 1 else 4
            raw, p = b[p:p + n], p + n
        elif wt == 2:
            n, p = _read_varint(b, p)
            raw, p = b[p:p + n], p + n
        else:
            raise DecodeError("wire type %d" % wt)
        if p > len(b):
            raise DecodeError("truncated message")
        if num not in by:
            continue
        f, kind = by[num]
        if kind == "int":
            if wt == 2:
                vs, q = [], 0
                while q < len(raw):
                    v, q = _read_varint(raw, q)
                    vs.append(_signed(v))
            else:
                vs = [_signed(raw)]
        elif kind in ("float", "double"):
            vs = list(struct.unpack("<%d%s" % (len(raw) // (4 if kind == "float" else 8), kind[0]), raw))
        elif kind == "str":
            vs = [bytes(raw).decode()]
        elif kind == "bytes":
            vs = [bytes(raw)]
        else:
            vs = [decode(classes[kind](), raw, classes)]
        if f in m.REPEATED:
            getattr(m, f).extend(vs)
        else:
            setattr(m, f, vs[-1])
    return m
