"""Faults raised inside calls: at the n-th point or by the n-th user callback."""
from __future__ import annotations

import asyncio
import sys

from . import engine, world as W


class SimSignal(BaseException):
    """A signal of the application's own."""


SIGNALS = {
    "KeyboardInterrupt": KeyboardInterrupt,
    "SystemExit": SystemExit,
    "CancelledError": asyncio.CancelledError,
    "SimSignal": SimSignal,
}


class UserCodeError(Exception):
    """An error of the user's code."""


USER_ERRORS = {
    "UserCodeError": UserCodeError, "ValueError": ValueError, "KeyError": KeyError, "TypeError": TypeError,
    "AttributeError": AttributeError, "StopIteration": StopIteration, "RuntimeError": RuntimeError,
    "IndexError": IndexError,
}


def make_exc(name):
    if name in SIGNALS:
        return SIGNALS[name]("injected")
    if name == "MemoryError":
        return MemoryError("injected")
    if name == "RecursionError":
        return RecursionError("maximum recursion depth exceeded (injected)")
    return USER_ERRORS[name]("injected")


KINDS = {"int": ("start", "after"), "mem": ("call",), "rec": ("start",)}


def to_fault(d):
    return engine.Fault(d["tid"], d["at"], lambda: make_exc(d["exc"]), kinds=KINDS[d["kind"]], op=d.get("op", 0))


def count_points(world, case, ops, k, kind):
    """Fault points of operation k of ops, run alone (in a forked child): their number and sites."""
    c = dict(case, threads=[ops])
    f = engine.Fault(0, -1, None, kinds=KINDS[kind], op=k)
    sim, outs = W.run_threads(world, c, engine.Counting(), faults=[f], record_sites=True)
    return f.count, [list(x) for x in sim.fault_sites], outs[0]


def pick_points(rng, n, sites, m):
    """m fault positions out of n: uniform, by code site, by function, or shortly after a store."""
    if n == 0:
        return []
    by = {}
    for i, s in enumerate(sites):
        by.setdefault((s[0], s[1], s[2]), []).append(i + 1)
    keys = sorted(by)
    out = []
    fns = {}
    for k in keys:
        fns.setdefault(k[0], []).append(k)
    hot = {}
    for i, s in enumerate(sites):
        if s[4]:
            hot.setdefault(s[0], {}).setdefault(s[1], []).append(i + 1)
    for i in range(m):
        x = rng.random()
        if x < 0.2:
            out.append(rng.randrange(1, n + 1))
        elif x < 0.6 and hot:
            fns_hot = list(hot)
            # the functions with many stores are those that prepare classes
            w = [len(hot[k]) for k in fns_hot] if x < 0.45 else [1] * len(fns_hot)
            at = hot[rng.choices(fns_hot, w)[0]]
            out.append(rng.choice(at[rng.choice(list(at))]))
        else:
            occ = by[rng.choice(keys) if x < 0.75 else rng.choice(fns[rng.choice(list(fns))])]
            out.append(occ[-1] if rng.random() < 0.3 else rng.choice(occ))
    return out


def count_hooks(world, case, ops, k):
    """Names of the user callbacks run by operation k of ops."""
    log = []

    def before(sim, i, j, op):
        world.hook_log = [] if j == k else None

    def after(sim, i, j, op, r, obj):
        if j == k:
            log.extend(x[2] for x in world.hook_log)
        world.hook_log = None

    c = dict(case, threads=[ops])
    W.run_threads(world, c, engine.Solo(), before_op=before, after_op=after)
    return log


def constructed_by_library():
    """Whether the __post_init__ that runs now belongs to a constructor called by the library, not by user code."""
    f = sys._getframe()
    while f is not None and f.f_code.co_name not in ("__post_init__", "__init__"):
        f = f.f_back
    while f is not None and f.f_code.co_name in ("__post_init__", "__init__", "__new__"):
        f = f.f_back
    return f is not None and not f.f_code.co_filename.startswith("<wl:")


class HookFault:
    """The n-th user callback of operation `op` of thread `tid` raises."""

    def __init__(self, d):
        self.d = d
        self.exc = None
        self.fired = None
        self.by_lib = False

    def __call__(self, name):
        self.by_lib = constructed_by_library()
        self.exc = make_exc(self.d["exc"])
        self.fired = name
        raise self.exc

    def before(self, world):
        def f(sim, i, j, op):
            if i == self.d["tid"]:
                if j == self.d["op"]:
                    world.hook_plan[(i, self.d["at"])] = self
                else:
                    world.hook_plan.pop((i, self.d["at"]), None)

        return f
