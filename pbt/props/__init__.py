import importlib
import pkgutil

from ..engine import Prop


def load():
    props = {}
    for m in pkgutil.iter_modules(__path__):
        mod = importlib.import_module("." + m.name, __name__)
        for v in vars(mod).values():
            if isinstance(v, type) and issubclass(v, Prop) and v.id:
                props[v.id] = v
    return props
