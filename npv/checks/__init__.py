"""Every property's monitor, by id."""

import importlib
import pkgutil

from .. import core

REGISTRY = {}
for _m in sorted(m.name for m in pkgutil.iter_modules(__path__)):
    _mod = importlib.import_module(__name__ + "." + _m)
    for _obj in vars(_mod).values():
        if isinstance(_obj, type) and issubclass(_obj, core.Prop) and _obj.id:
            REGISTRY[_obj.id] = _obj
