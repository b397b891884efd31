class ValidationError(Exception):
    pass


def check_model(model, *a, **k):
    if model is None or model.graph is None:
        raise ValidationError("no graph")


def check_graph(*a, **k):
    pass


check_node = check_tensor = check_attribute = check_value_info = check_graph
