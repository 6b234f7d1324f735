"""Registry of property checks."""
import importlib, pkgutil, os
REG = {}
def prop(pid, level="other", floor=1, explain="", assume=()):
    def d(f):
        REG[pid] = (f, {"level": level, "floor": floor, "explain": explain or (f.__doc__ or ""), "assume": list(assume)})
        return f
    return d
def load():
    for m in pkgutil.iter_modules([os.path.dirname(os.path.abspath(__file__))]):
        importlib.import_module("props." + m.name)
def get(pid):
    load()
    return REG[pid]
