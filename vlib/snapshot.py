"""Deep snapshots of an object graph: which objects, of which type, with which contents, in which order."""
from __future__ import annotations

import io
import types
from types import MappingProxyType

import numpy as np
import pandas as pd


def snapshot(root):
    """{id: (type, description)}; ids stay valid as long as root is alive."""
    seen = {}
    keep = []
    stack = [root]
    while stack:
        o = stack.pop()
        if id(o) in seen:
            continue
        keep.append(o)
        t = type(o)
        kids = ()
        if isinstance(o, (pd.DataFrame, pd.Series)):
            vals = o.to_numpy(dtype=object, copy=True)
            cells = vals.ravel().tolist()
            d = (o.shape, [repr(c) for c in (o.columns if isinstance(o, pd.DataFrame) else [o.name])], repr(o.index), str(o.dtypes), [repr(c) for c in cells])
            kids = [c for c in cells if isinstance(c, (list, dict, set, tuple))]
        elif isinstance(o, np.ndarray):
            d = (o.shape, str(o.dtype), repr(o.tolist()), o.flags.writeable)
        elif isinstance(o, (dict, MappingProxyType)):
            d = tuple((id(k), id(v)) for k, v in dict.items(o) if True) if isinstance(o, dict) else tuple((id(k), id(v)) for k, v in o.items())
            kids = [x for kv in (dict.items(o) if isinstance(o, dict) else o.items()) for x in kv]
        elif isinstance(o, (list, tuple)):
            kids = list(list.__iter__(o) if isinstance(o, list) else tuple.__iter__(o))
            d = tuple(map(id, kids))
        elif isinstance(o, (set, frozenset)):
            kids = list(set.__iter__(o) if isinstance(o, set) else frozenset.__iter__(o))
            d = frozenset(map(id, kids))
        elif isinstance(o, io.IOBase):
            d = (o.tell() if not o.closed and o.seekable() else None, o.closed)
        elif isinstance(o, (int, float, str, bytes, complex, range, type(None), types.ModuleType)):
            d = None
        elif isinstance(o, types.FunctionType):
            d = (id(o.__code__), id(o.__defaults__), tuple(sorted(o.__dict__)), repr(o.__annotations__))
        elif isinstance(o, type):
            d = tuple((k, id(v)) for k, v in o.__dict__.items() if k not in ("__doc__",)) if o.__module__.startswith("vlib") else None
        else:
            dd = getattr(t, "__dict__", {})
            inst = object.__getattribute__(o, "__dict__") if "__dict__" in dir(t) and hasattr_dict(o) else None
            d = tuple((k, id(v)) for k, v in inst.items()) if inst is not None else None
            kids = list(inst.values()) if inst else ()
            del dd
        if isinstance(o, (dict, list, tuple, set, frozenset)) and hasattr_dict(o):
            d = (d, tuple((k, id(v)) for k, v in object.__getattribute__(o, "__dict__").items()))
        seen[id(o)] = (t, d)
        stack.extend(kids)
    return seen, keep


def hasattr_dict(o):
    try:
        object.__getattribute__(o, "__dict__")
        return True
    except AttributeError:
        return False


def difference(a, b):
    if a.keys() != b.keys():
        new = b.keys() - a.keys()
        gone = a.keys() - b.keys()
        return f"{len(new)} new and {len(gone)} gone objects, e.g. {[b[k] for k in list(new)[:2]]} / {[a[k] for k in list(gone)[:2]]}"
    for k in a:
        if a[k] != b[k]:
            return f"object of type {a[k][0].__name__} changed: {str(a[k][1])[:300]} -> {str(b[k][1])[:300]}"
    return None
