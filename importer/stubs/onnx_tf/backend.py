import collections, re
import numpy as np
import toolbox


class _Outputs(object):
    """What a run returns: its values by name, by position and as attributes."""

    def __init__(self, names, values):
        self._names, self._values = list(names), list(values)

    def __getitem__(self, k):
        return self._values[k if isinstance(k, int) else self._names.index(k)] if isinstance(k, int) or k in self._names else self._missing(k)

    def _missing(self, k):
        raise KeyError(k)

    def __getattr__(self, k):
        if k.startswith("_") or k not in self._names:
            raise AttributeError(k)
        return self[k]

    def __iter__(self):
        return iter(self._values)

    def __len__(self):
        return len(self._values)

    def _asdict(self):
        return collections.OrderedDict(zip(self._names, self._values))


class TensorflowRep(object):
    def __init__(self, names):
        self.inputs, self.outputs, self.tensor_dict = ["x"], names, {n: None for n in toolbox.TENSORS}

    def run(self, inputs, **kwargs):
        if isinstance(inputs, dict):
            inputs = list(inputs.values())
        elif not isinstance(inputs, (list, tuple)):
            inputs = [inputs]
        toolbox.RAN.append([np.array(x) for x in inputs])
        return _Outputs(self.outputs, [np.array(toolbox.TENSORS[n]) for n in self.outputs])


def prepare(model, device="CPU", strict=True, logging_level="INFO", **kwargs):
    names = [o.name for o in model.graph.output]
    for n in names:
        if n not in toolbox.TENSORS:
            raise KeyError(n)
    return TensorflowRep(names)


def run_model(model, inputs, device="CPU", **kwargs):
    return prepare(model, device).run(inputs)
