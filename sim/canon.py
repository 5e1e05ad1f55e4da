"""Canonical, comparable, JSON-able description of values and exceptions."""
from __future__ import annotations

import collections
import dataclasses
import enum
import re

_ADDR = re.compile(r"0x[0-9a-fA-F]{4,}")


def _tn(t):
    return f"{t.__module__}.{t.__qualname__}"


def canon(v, depth=0, addr=True):
    """A nested list/str structure; equal iff the values are equal for the purposes of the oracles."""
    if depth > 60:
        return "..."
    t = type(v)
    if v is None or t is bool or t is str:
        return v
    if t is int:
        return v if abs(v) < 1 << 53 else ["bigint", str(v)]
    if t is float:
        return ["float", repr(v)]
    if t is bytes or t is bytearray:
        return [t.__name__, v.hex()]
    if t.__name__ == "RawCanon":
        return v.c
    if isinstance(v, enum.Enum):
        return ["enum", _tn(t), v.name]
    if isinstance(v, type):
        return ["type", _tn(v)]
    if dataclasses.is_dataclass(t):
        d = getattr(v, "__dict__", None)
        out = ["obj", _tn(t)]
        if d is not None:
            items = list(d.items())
        else:
            items = []
        seen = {k for k, _ in items}
        for f in dataclasses.fields(t):
            if f.name not in seen:
                try:
                    items.append((f.name, object.__getattribute__(v, f.name)))
                except AttributeError:
                    items.append((f.name, "<unset>"))
        items.sort(key=lambda kv: kv[0])
        out.append([[k, canon(x, depth + 1)] for k, x in items])
        return out
    if isinstance(v, collections.defaultdict):
        return [
            "defaultdict",
            canon(v.default_factory, depth + 1),
            [[canon(k, depth + 1), canon(x, depth + 1)] for k, x in list(v.items())],
        ]
    if isinstance(v, dict):
        return [
            "dict" if t is dict else _tn(t),
            [[canon(k, depth + 1), canon(x, depth + 1)] for k, x in list(v.items())],
        ]
    if isinstance(v, (list, tuple, collections.deque)):
        return ["list" if t is list else _tn(t), [canon(x, depth + 1) for x in list(v)]]
    if isinstance(v, (set, frozenset)):
        return [_tn(t), sorted((canon(x, depth + 1) for x in v), key=repr)]
    if isinstance(v, BaseException):
        return canon_exc(v)
    if t.__module__ == "numpy":
        import numpy as np

        if isinstance(v, np.ndarray):
            return ["ndarray", str(v.dtype), list(v.shape), canon(v.tolist(), depth + 1)]
        return ["np", str(v.dtype), repr(v.item())]
    if isinstance(v, (int, float, str)):  # primitive subclasses
        base = int if isinstance(v, int) else float if isinstance(v, float) else str
        return ["sub", _tn(t), repr(base(v))]
    r = repr(v)
    return ["repr", _tn(t), norm(r)]


def norm(s):
    s = _ADDR.sub("0x", s)
    return s if len(s) < 400 else s[:400]


def canon_exc(e):
    out = ["exc", _tn(type(e))]
    mod = type(e).__module__
    try:
        msg = norm(str(e))
    except Exception as e2:  # broken __str__
        msg = f"<str failed {type(e2).__name__}>"
    if mod.startswith("beartype") or "beartype" in msg or "violates type hint" in msg:
        msg = "<violation>"
    out.append(msg)
    if e.args and isinstance(e.args[0], BaseException):
        out.append(_tn(type(e.args[0])))
    return out


def freeze(c):
    import json

    return json.dumps(c, sort_keys=True, default=str)
