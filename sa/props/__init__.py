import importlib

TABLE = {}


class Spec:
    def __init__(self, run, level, explanation):
        self.run, self.level, self.explanation = run, level, explanation


def prop(pid, explanation, level="other"):
    def deco(f):
        TABLE[pid] = Spec(f, level, explanation)
        return f
    return deco


MODULES = {}


def load(pid):
    from . import arrays
    for name in ("arrays", "reading", "masks", "writing", "handles", "vis"):
        try:
            importlib.import_module("sa.props." + name)
        except ModuleNotFoundError as ex:
            if ex.name != "sa.props." + name:
                raise
    return TABLE[pid]
