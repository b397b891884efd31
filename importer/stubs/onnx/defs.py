ONNX_DOMAIN = ""
ONNX_ML_DOMAIN = "ai.onnx.ml"


def onnx_opset_version():
    return 9
