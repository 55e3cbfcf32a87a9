"""One function per property, named c01, c02, ..., in the modules below."""
import importlib
import os

MODULES = sorted(f[:-3] for f in os.listdir(os.path.dirname(os.path.abspath(__file__))) if f.endswith(".py") and f != "__init__.py")


def find(pid):
    fn = pid.lower()
    for m in MODULES:
        mod = importlib.import_module("props." + m)
        if hasattr(mod, fn):
            return mod, getattr(mod, fn)
    raise SystemExit("no check for " + pid)


def have(pid):
    fn = pid.lower()
    return any(hasattr(importlib.import_module("props." + m), fn) for m in MODULES)
