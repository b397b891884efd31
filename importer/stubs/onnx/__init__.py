"""The part of the onnx package the importer uses, over plain Python objects: the sandbox has no
onnx.  Field access and presence follow the protocol buffer classes of onnx.proto."""
import copy
import numpy as np
from . import wire


class Rep(list):
    """A repeated field."""

    def __init__(self, owner, kind, items=()):
        list.__init__(self, items)
        self.owner, self.kind = owner, kind

    def add(self, **kw):
        m = globals()[self.kind](**kw)
        self.append(m)
        return m

    def MergeFrom(self, other):
        self.extend(copy.deepcopy(list(other)))

    def CopyFrom(self, other):
        self[:] = copy.deepcopy(list(other))

    def __deepcopy__(self, memo):
        return Rep(None, self.kind, [copy.deepcopy(x, memo) for x in self])


class Enum(object):
    def __init__(self, names):
        self._names = names

    def Name(self, v):
        return self._names[v]

    def Value(self, n):
        return self._names.index(n)

    def keys(self):
        return list(self._names)

    def values(self):
        return list(range(len(self._names)))

    def items(self):
        return list(zip(self._names, range(len(self._names))))


class Msg(object):
    FIELDS = ()          # optional singular fields
    REPEATED = ()

    def __init__(self, **kw):
        d = self.__dict__
        for f in self.FIELDS:
            d[f] = self.DEFAULTS.get(f)
        for f in self.REPEATED:
            d[f] = self._rep(f)
        d["_set"] = set()
        for k, v in kw.items():
            setattr(self, k, v)

    DEFAULTS = {}

    def __setattr__(self, k, v):
        if k not in self.FIELDS and k not in self.REPEATED:
            raise AttributeError(k)
        self.__dict__[k] = self._rep(k, v) if k in self.REPEATED else v
        self._set.add(k)

    def _rep(self, f, items=()):
        return Rep(self, wire.FIELDS.get(type(self).__name__, {}).get(f, (0, None))[1], items)

    def HasField(self, f):
        if f in self.REPEATED or f not in self.FIELDS:
            raise ValueError("Protocol message has no singular %r field." % f)
        return f in self._set

    def ParseFromString(self, b):
        self.__init__()
        wire.decode(self, b, globals())

    @classmethod
    def FromString(cls, b):
        m = cls()
        m.ParseFromString(b)
        return m

    def SerializeToString(self):
        return wire.encode(self)

    def ClearField(self, f):
        self.__dict__[f] = self._rep(f) if f in self.REPEATED else self.DEFAULTS.get(f)
        self._set.discard(f)

    def Clear(self):
        self.__init__()

    def ByteSize(self):
        return len(self.SerializeToString())

    def IsInitialized(self):
        return True

    def MergeFrom(self, other):
        for f in self.FIELDS:
            if f in other._set:
                setattr(self, f, copy.deepcopy(other.__dict__[f]))
        for f in self.REPEATED:
            self.__dict__[f].MergeFrom(other.__dict__[f])

    def __eq__(self, other):
        return type(self) is type(other) and wire.encode(self) == wire.encode(other)

    __hash__ = None

    def __str__(self):
        return "".join("%s: %s\n" % (f, x) for f, v in self.ListFields() for x in (v if isinstance(v, list) else [v]))

    __repr__ = __str__

    def CopyFrom(self, other):
        self.__dict__.clear()
        self.__dict__.update(copy.deepcopy(other.__dict__))

    def ListFields(self):
        return [(f, self.__dict__[f]) for f in self.FIELDS + self.REPEATED if (f in self._set if f in self.FIELDS else len(self.__dict__[f]))]


class TensorProto(Msg):
    FIELDS = ("name", "data_type", "array", "raw_data", "doc_string")    # array: the values, for tensors made here
    REPEATED = ("dims", "float_data", "int32_data", "string_data", "int64_data", "double_data", "uint64_data")
    DEFAULTS = {"name": "", "data_type": 0, "raw_data": b"", "doc_string": ""}
    UNDEFINED, FLOAT, UINT8, INT8, UINT16, INT16, INT32, INT64, STRING, BOOL, FLOAT16, DOUBLE, UINT32, UINT64 = range(14)
    DataType = Enum("UNDEFINED FLOAT UINT8 INT8 UINT16 INT16 INT32 INT64 STRING BOOL FLOAT16 DOUBLE UINT32 UINT64".split())

    def stored(self):
        """The same tensor with its values in the fields of the file format."""
        if self.array is None:
            return self
        t = TensorProto(name=self.name, data_type=self.data_type, dims=list(self.dims))
        t.raw_data = np.ascontiguousarray(self.array).tobytes()
        return t


class AttributeProto(Msg):
    FIELDS = ("name", "type", "f", "i", "s", "t", "g", "doc_string")
    REPEATED = ("floats", "ints", "strings", "tensors", "graphs")
    DEFAULTS = {"name": "", "type": 0, "f": 0.0, "i": 0, "s": b"", "doc_string": ""}
    UNDEFINED, FLOAT, INT, STRING, TENSOR, GRAPH, FLOATS, INTS, STRINGS, TENSORS, GRAPHS = range(11)
    AttributeType = Enum("UNDEFINED FLOAT INT STRING TENSOR GRAPH FLOATS INTS STRINGS TENSORS GRAPHS".split())


class NodeProto(Msg):
    FIELDS = ("name", "op_type", "domain", "doc_string")
    REPEATED = ("input", "output", "attribute")
    DEFAULTS = {"name": "", "op_type": "", "domain": "", "doc_string": ""}


class Dimension(Msg):
    FIELDS = ("dim_value", "dim_param", "denotation")
    DEFAULTS = {"dim_value": 0, "dim_param": "", "denotation": ""}

    def __setattr__(self, k, v):        # a oneof
        if k in ("dim_value", "dim_param"):
            for f in ("dim_value", "dim_param"):
                self.ClearField(f)
        Msg.__setattr__(self, k, v)

    def WhichOneof(self, n):
        return "dim_value" if "dim_value" in self._set else "dim_param" if "dim_param" in self._set else None


class TensorShapeProto(Msg):
    REPEATED = ("dim",)


class TensorTypeProto(Msg):
    FIELDS = ("elem_type", "shape")
    DEFAULTS = {"elem_type": 0}


class TypeProto(Msg):
    FIELDS = ("tensor_type", "denotation")
    DEFAULTS = {"denotation": ""}

    def WhichOneof(self, n):
        return "tensor_type" if "tensor_type" in self._set else None


class ValueInfoProto(Msg):
    FIELDS = ("name", "type", "doc_string")
    DEFAULTS = {"name": "", "doc_string": ""}


class GraphProto(Msg):
    FIELDS = ("name", "doc_string")
    REPEATED = ("node", "initializer", "input", "output", "value_info")
    DEFAULTS = {"name": "", "doc_string": ""}


class OperatorSetIdProto(Msg):
    FIELDS = ("domain", "version")
    DEFAULTS = {"domain": "", "version": 0}


class StringStringEntryProto(Msg):
    FIELDS = ("key", "value")
    DEFAULTS = {"key": "", "value": ""}


class ModelProto(Msg):
    FIELDS = ("ir_version", "producer_name", "producer_version", "domain", "model_version", "doc_string", "graph")
    REPEATED = ("opset_import", "metadata_props")
    DEFAULTS = {"ir_version": 0, "producer_name": "", "producer_version": "", "domain": "", "model_version": 0, "doc_string": ""}


def load_model_from_string(b, format=None):
    return ModelProto.FromString(b)


def load_model(f, format=None, load_external_data=True):
    if hasattr(f, "read"):
        return load_model_from_string(f.read())
    with open(f, "rb") as o:
        return load_model_from_string(o.read())


def save_model(proto, f, format=None):
    b = proto if isinstance(proto, bytes) else proto.SerializeToString()
    if hasattr(f, "write"):
        f.write(b)
        return
    with open(f, "wb") as o:
        o.write(b)


def load_tensor(f, format=None):
    with open(f, "rb") as o:
        return TensorProto.FromString(o.read())


load, save, load_from_string, load_tensor_from_string = load_model, save_model, load_model_from_string, TensorProto.FromString
from . import numpy_helper, checker, helper, shape_inference, optimizer, utils   # noqa: E402
from . import mapping, defs                 # noqa: E402
from . import backend                          # noqa: E402
from .backend import base                      # noqa: E402
