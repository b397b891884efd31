import numpy as np

TYPES = {1: np.float32, 2: np.uint8, 3: np.int8, 4: np.uint16, 5: np.int16, 6: np.int32, 7: np.int64, 9: np.bool_, 10: np.float16, 11: np.float64, 12: np.uint32, 13: np.uint64}


def to_array(t):
    if t.array is not None:
        return t.array
    ty = np.dtype(TYPES[t.data_type])
    if t.HasField("raw_data"):
        return np.frombuffer(t.raw_data, dtype=ty.newbyteorder("<")).astype(ty).reshape(t.dims)
    if t.data_type == 1:
        return np.asarray(t.float_data, dtype=ty).reshape(t.dims)
    if t.data_type == 11:
        return np.asarray(t.double_data, dtype=ty).reshape(t.dims)
    if t.data_type == 7:
        return np.asarray(t.int64_data, dtype=ty).reshape(t.dims)
    if t.data_type in (12, 13):
        return np.asarray(t.uint64_data, dtype=ty).reshape(t.dims)
    if t.data_type == 10:
        return np.asarray(t.int32_data, dtype=np.uint16).view(np.float16).reshape(t.dims)
    return np.asarray(t.int32_data, dtype=np.int32).astype(ty).reshape(t.dims)


def from_array(a, name=None):
    from . import TensorProto
    a = np.asarray(a)
    t = TensorProto(data_type=next(k for k, v in TYPES.items() if np.dtype(v) == a.dtype), dims=list(a.shape), raw_data=np.ascontiguousarray(a).tobytes())
    if name:
        t.name = name
    return t


def to_list(t):
    return to_array(t).tolist()
