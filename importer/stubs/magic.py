"""python-magic over the files of a scenario (see toolbox.py)."""
import toolbox


def from_file(path, mime=False):
    return toolbox.content(path)["mime"]
