"""Mutable objects reachable from values, and what they hold."""
from __future__ import annotations

import collections
import dataclasses
import enum
import types

ATOMS = (str, bytes, int, float, complex, bool, type(None), type, types.FunctionType, types.ModuleType,
         types.BuiltinFunctionType, types.MethodType, enum.Enum, range)


def children(v):
    """Objects directly held by v, or None if v is not traversed."""
    if isinstance(v, ATOMS):
        return None
    if isinstance(v, (dict, types.MappingProxyType)):
        out = []
        for k, x in list(v.items()):
            out.append(k)
            out.append(x)
        return out + inst(v)
    if isinstance(v, (list, tuple, set, frozenset, collections.deque)):
        return list(v) + inst(v)
    if isinstance(v, BaseException):
        return None
    t = type(v)
    if dataclasses.is_dataclass(t) or t.__module__.startswith("wl_"):
        return inst(v)
    if isinstance(v, (collections.UserDict, collections.UserList)):
        return inst(v)
    return None


def inst(v):
    d = getattr(v, "__dict__", None)
    out = list(d.values()) if isinstance(d, dict) else []
    for c in type(v).__mro__:
        for s in getattr(c, "__slots__", ()) if isinstance(getattr(c, "__slots__", ()), (tuple, list)) else ():
            if s not in ("__dict__", "__weakref__"):
                try:
                    out.append(object.__getattribute__(v, s))
                except AttributeError:
                    pass
    return out


def is_mutable(v):
    if isinstance(v, ATOMS) or isinstance(v, (tuple, frozenset, BaseException)):
        return isinstance(v, tuple) and bool(getattr(v, "__dict__", None))
    if isinstance(v, (list, dict, set, collections.deque, bytearray, collections.UserDict)):
        return True
    t = type(v)
    if t.__module__ == "numpy":
        return t.__name__ == "ndarray"
    return dataclasses.is_dataclass(t) or t.__module__.startswith("wl_")


def walk(roots, skip=()):
    """id -> object, for every mutable object reachable."""
    seen = set()
    out = {}
    todo = list(roots)
    while todo:
        v = todo.pop()
        i = id(v)
        if i in seen or i in skip:
            continue
        seen.add(i)
        ch = children(v)
        if is_mutable(v):
            out[i] = v
        if ch:
            todo.extend(ch)
    return out


def content(v):
    """Shallow fingerprint: identities of what v holds."""
    if isinstance(v, dict):
        return [(id(k), id(x)) for k, x in list(v.items())] + inst_ids(v)
    if isinstance(v, (list, collections.deque)):
        return [id(x) for x in list(v)] + inst_ids(v)
    if isinstance(v, set):
        return sorted(id(x) for x in list(v))
    if isinstance(v, bytearray):
        return bytes(v)
    if type(v).__module__ == "numpy":
        return (v.tobytes(), str(v.dtype), v.shape, v.flags.writeable)
    return inst_ids(v)


def inst_ids(v):
    d = getattr(v, "__dict__", None)
    if isinstance(d, dict):
        return [(k, id(x)) for k, x in list(d.items())]
    return [id(x) for x in inst(v)]


def defaults_of(world):
    """Plain defaults declared by the dataclasses of the workload."""
    out = []
    for m in world.mods.values():
        for c in list(m.__dict__.values()):
            if isinstance(c, type) and dataclasses.is_dataclass(c):
                for f in dataclasses.fields(c):
                    if f.default is not dataclasses.MISSING:
                        out.append(f.default)
                    if f.metadata:
                        out.append(list(f.metadata.values()))
    return out


class Watch:
    """Notices any change of the objects reachable from the roots."""

    def __init__(self, named):
        self.items = []
        self.keep = []
        for name, v in named:
            for o in walk([v]).values():
                self.items.append((name, o, content(o)))
                self.keep.append(children(o))

    def changed(self):
        for name, o, c in self.items:
            if content(o) != c:
                return name, o
        return None


def spoil(objs):
    """Change every one of these mutable objects."""
    for v in objs:
        try:
            if isinstance(v, dict):
                v["spoilt"] = "spoilt"
                for k in list(v)[:1]:
                    v[k] = "spoilt"
            elif isinstance(v, list):
                v[:] = ["spoilt"] * (len(v) + 1)
            elif isinstance(v, collections.deque):
                v.append("spoilt")
                v[0] = "spoilt"
            elif isinstance(v, set):
                v.add("spoilt")
            elif isinstance(v, bytearray):
                v.extend(b"spoilt")
            elif type(v).__module__ == "numpy":
                v.fill(0)
            else:
                d = getattr(v, "__dict__", None)
                if isinstance(d, dict):
                    for k in d:
                        d[k] = "spoilt"
                elif dataclasses.is_dataclass(type(v)):
                    for f in dataclasses.fields(v):
                        object.__setattr__(v, f.name, "spoilt")
        except Exception:
            pass
