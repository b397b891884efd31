"""The one optimizer pass the importer asks for."""
import copy


def get_available_passes():
    return ["eliminate_nop_dropout"]


def optimize(model, passes=None, fixed_point=False):
    m = copy.deepcopy(model)
    g = m.graph
    if passes is None or "eliminate_nop_dropout" in passes:
        outs = {o.name for o in g.output}
        i = 0
        while i < len(g.node):
            n = g.node[i]
            ratio = [a for a in n.attribute if a.name == "ratio"]
            if n.op_type != "Dropout" or not ratio or ratio[0].f != 0.0:
                i += 1
                continue
            del g.node[i]
            src = n.input[0]
            for o in n.output:
                old, new = o, src
                if o in outs:                 # a graph output keeps its name, the value before takes it over
                    old, new, src = src, o, o
                for k in g.node:
                    k.input = [new if x == old else x for x in k.input]
                    k.output = [new if x == old else x for x in k.output]
            names = {o for k in g.node for o in k.output}
            g.value_info = [v for v in g.value_info if v.name in names and v.name not in outs]
    return m
