import toolbox


def read(path, mmap=False):
    return toolbox.content(path)["rate"], toolbox.content(path)["array"].copy()
