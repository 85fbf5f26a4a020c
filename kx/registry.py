import importlib
import os
import pkgutil

HERE = os.path.dirname(os.path.abspath(__file__))
PROPS = {}


def prelude():
    with open(os.path.join(HERE, "prelude.txt"), encoding="utf-8") as fh:
        return fh.read()


def load():
    if not PROPS:
        from kx import props
        for m in pkgutil.iter_modules(props.__path__):
            mod = importlib.import_module("kx.props." + m.name)
            for p in getattr(mod, "PROPS", []):
                PROPS[p.id] = p
    return PROPS


def get(pid):
    return load()[pid]
