import numpy as np
import toolbox


def _run(inputs):
    if isinstance(inputs, dict):
        inputs = list(inputs.values())
    if not isinstance(inputs, (list, tuple)):
        inputs = [inputs]
    toolbox.RAN.append([np.array(x) for x in inputs])
    if len(inputs):
        toolbox.RUNS.append(np.array(inputs[0]))
    return tuple(o.copy() for o in toolbox.OUTPUTS)


def run_model(model, inputs, device="CPU", **k):
    return _run(inputs)


class _Prepared(object):
    def run(self, inputs, **k):
        return _run(inputs)


def prepare(model, device="CPU", **k):
    return _Prepared()
