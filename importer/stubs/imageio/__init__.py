import toolbox


def imread(path, *a, **k):
    return toolbox.content(path)["array"].copy()


from . import v2   # noqa: E402,F401
