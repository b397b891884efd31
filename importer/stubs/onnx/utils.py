def polish_model(model):
    from . import checker, helper, shape_inference
    checker.check_model(model)
    helper.strip_doc_string(model)
    model = shape_inference.infer_shapes(model)
    checker.check_model(model)
    return model
