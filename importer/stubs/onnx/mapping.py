import numpy as np
from .numpy_helper import TYPES
TENSOR_TYPE_TO_NP_TYPE = {k: np.dtype(v) for k, v in TYPES.items()}
NP_TYPE_TO_TENSOR_TYPE = {v: k for k, v in TENSOR_TYPE_TO_NP_TYPE.items()}
