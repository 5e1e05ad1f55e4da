"""Does a value conform to a declared type?  Written from the documentation, without pyserde."""
from __future__ import annotations

import collections
import dataclasses
import enum
import types
import typing


def hints(cls, world):
    ns = dict(world.ns)
    return typing.get_type_hints(cls, ns, ns)


def conforms(v, t):
    """True if v may stand in a field declared as t; elements of containers are not looked at."""
    if t is typing.Any:
        return True
    if t is None or t is type(None):
        return v is None
    if isinstance(t, typing.NewType):
        return conforms(v, t.__supertype__)
    if isinstance(t, typing.TypeVar):
        return True
    o = typing.get_origin(t)
    if o is typing.Union or o is types.UnionType:
        return any(conforms(v, a) for a in typing.get_args(t))
    if o is typing.Literal:
        return any(type(v) is type(a) and v == a for a in typing.get_args(t))
    if o is typing.ClassVar:
        return True
    if getattr(t, "array_type", None) is not None:  # jaxtyping: dtype and shape are not part of the claim
        return isinstance(v, t.array_type)
    if o is not None:
        return isinstance(v, o)
    if isinstance(t, type):
        return isinstance(v, t)
    return True


def bad_field(objs, checked, world):
    """The first field of an instance of a checked class that does not conform: text or None."""
    cache = {}
    for v in objs:
        t = type(v)
        if not dataclasses.is_dataclass(t) or t.__name__ not in checked:
            continue
        if t not in cache:
            cache[t] = hints(t, world)
        h = cache[t]
        for f in dataclasses.fields(t):
            if f.name not in h:
                continue
            try:
                x = object.__getattribute__(v, f.name)
            except AttributeError:
                return f"{t.__name__}.{f.name} is not set"
            if not conforms(x, h[f.name]):
                return f"{t.__name__}.{f.name}: {h[f.name]} holds {x!r}"
    return None


def top_conforms(v, t):
    return conforms(v, t)
