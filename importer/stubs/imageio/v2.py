import toolbox


def imread(path, *a, **k):
    return toolbox.content(path)["array"].copy()
