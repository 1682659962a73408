"""
Complete snapshots of pyvrp objects as plain, comparable Python values, taken
through every public accessor.
"""

import numpy as np
import pyvrp

SKIP = {
    "replace",
    "make_random",
    "penalised_cost",
    "cost",
    "add_client",
    "set",
    "reset",
}


def snap(obj, depth=0):
    """Plain value of an object: every property and zero-argument method."""
    if isinstance(obj, (int, float, str, bool, type(None), bytes)):
        return obj
    if isinstance(obj, np.ndarray):
        return ("array", str(obj.dtype), obj.shape, obj.tolist())
    if isinstance(obj, (list, tuple)):
        return [snap(x, depth + 1) for x in obj]
    if isinstance(obj, dict):
        return {str(k): snap(v, depth + 1) for k, v in obj.items()}
    if isinstance(obj, pyvrp.ActivityType):
        return str(obj)
    cls = type(obj)
    if not cls.__module__.startswith("pyvrp"):
        return repr(obj)
    out = {"class": cls.__name__}
    for name in dir(cls):
        if name.startswith("_") or name in SKIP:
            continue
        attr = getattr(cls, name)
        if isinstance(attr, property):
            out[name] = snap(getattr(obj, name), depth + 1)
        elif callable(attr):
            try:
                val = getattr(obj, name)()
            except TypeError:
                continue  # needs arguments
            out[name] = snap(val, depth + 1)
    if hasattr(cls, "__len__"):
        out["len"] = len(obj)
    if hasattr(cls, "__getitem__") and hasattr(cls, "__len__"):
        out["items"] = [snap(obj[i], depth + 1) for i in range(len(obj))]
    if hasattr(cls, "__str__") and cls.__str__ is not object.__str__:
        out["str"] = str(obj)
    return out


def diff(a, b, path=""):
    """First difference between two snapshots, or None."""
    if type(a) is not type(b):
        return f"{path}: {a!r} != {b!r}"
    if isinstance(a, dict):
        for key in sorted(set(a) | set(b)):
            if key not in a or key not in b:
                return f"{path}.{key}: only on one side"
            res = diff(a[key], b[key], f"{path}.{key}")
            if res:
                return res
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: length {len(a)} != {len(b)}"
        for idx, (x, y) in enumerate(zip(a, b)):
            res = diff(x, y, f"{path}[{idx}]")
            if res:
                return res
        return None
    if a != b:
        return f"{path}: {a!r} != {b!r}"
    return None
