"""What the media files of a scenario contain, what the model computes, and what it was run on."""
import os
FILES = {}          # real path -> {"mime": ..., "array": ..., "rate": ...}
OUTPUTS = []        # arrays the model returns
RUNS = []           # arrays it was run on


def content(path):
    if not os.path.exists(path):
        raise FileNotFoundError(path)
    return FILES[os.path.realpath(path)]
RAN = []            # per run, the list of all arrays given
TENSORS = {}        # the tensors of the model by name, as onnx_tf computes them
