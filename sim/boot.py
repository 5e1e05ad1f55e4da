"""Process set-up of a simulation worker: seams, third-party warm-up, a fresh import of serde."""
from __future__ import annotations

import importlib
import os
import random
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
ADDR_NO_RANDOMIZE = 0x0040000


def reexec_pinned(hashseed, orjson):
    """Environment of a worker: fixed hash seed, no ASLR if allowed, sources compiled afresh."""
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = str(hashseed)
    env["PYTHONPATH"] = os.pathsep.join([REPO, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))] + (["/opt/orjson"] if orjson else []))
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONPYCACHEPREFIX"] = "/nonexistent-verif-pycache"
    env["TZ"] = "UTC0"
    env.pop("PYTHONSTARTUP", None)
    return env


def no_aslr():
    """Called in the child before exec."""
    try:
        import ctypes

        libc = ctypes.CDLL(None)
        cur = libc.personality(0xFFFFFFFF)
        if cur >= 0:
            libc.personality(cur | ADDR_NO_RANDOMIZE)
    except Exception:
        pass


WARM = '''
from __future__ import annotations
import datetime, decimal, enum, typing, uuid, pathlib, ipaddress, collections
from dataclasses import dataclass
import numpy as np
import serde, serde.json, serde.msgpack, serde.toml, serde.yaml, serde.pickle
from plum import dispatch
@dataclass
class W0:
    a: int
    b: str
@serde.serde(type_check=serde.strict)
@dataclass
class W1:
    a: int
    w: W0
    o: typing.Optional[W0]
    l: list[W0]
    d: dict[str, int]
    t: datetime.datetime
    u: typing.Union[int, W0]
    p: pathlib.Path
    x: typing.Literal[1, 2]
    n: np.ndarray
    s: set[int]
    def __post_init__(self):
        pass
w = W1(1, W0(1, "x"), None, [W0(2, "y")], {"a": 1}, datetime.datetime(2020, 1, 1), W0(3, "z"), pathlib.Path("/a"), 1, np.array([1]), {1})
serde.to_tuple(w)
for m, f, g in ((serde.json, "to_json", "from_json"), (serde.msgpack, "to_msgpack", "from_msgpack"), (serde.yaml, "to_yaml", "from_yaml")):
    d = getattr(m, f)(w)
    getattr(m, g)(W1, d)
serde.toml.from_toml(W0, serde.toml.to_toml(W0(1, "x")))
serde.json.from_json(typing.Union[int, str], serde.json.to_json(1, cls=typing.Union[int, str]))
try:
    W1("bad", None, None, None, None, None, None, None, None, None, None)
except serde.SerdeError:
    pass
serde.to_dict(decimal.Decimal("1.5")); serde.to_dict(datetime.date(2020, 1, 1))
class WC:
    @dispatch
    def serialize(self, value: datetime.datetime) -> str:
        return "x"
WC().serialize(datetime.datetime(2020, 1, 1))
'''

SUBMODULES = ["compat", "core", "se", "de", "json", "msgpack", "toml", "yaml", "pickle", "numpy", "sqlalchemy"]


def purge():
    for m in [m for m in sys.modules if m == "serde" or m.startswith("serde.")]:
        del sys.modules[m]


def boot():
    from . import engine

    # randomness seam: beartype draws container elements with random.getrandbits
    def getrandbits(k):
        return engine.RNGVAL[0] & ((1 << k) - 1)

    real_getrandbits = random.getrandbits
    random.getrandbits = getrandbits
    engine.SCOPE_PREFIXES[:] = [os.path.join(REPO, "serde") + os.sep]
    engine.install_lock_seam()
    # warm third-party libraries with a throw-away copy of serde (numpy, jinja2, beartype, plum...)
    import types

    try:
        m = types.ModuleType("warm_serde")
        sys.modules["warm_serde"] = m
        exec(compile(WARM, "<warm>", "exec"), m.__dict__)
    except Exception as e:  # a broken tree: the workloads will tell
        print("warm-up failed:", repr(e), file=sys.stderr)
    sys.modules.pop("warm_serde", None)
    purge()
    import serde

    assert os.path.realpath(serde.__file__).startswith(os.path.realpath(REPO)), serde.__file__
    for s in SUBMODULES:
        try:
            importlib.import_module("serde." + s)
        except ImportError:
            pass
    import jinja2

    for s in list(sys.modules.values()):
        if getattr(s, "__name__", "").startswith("serde"):
            for v in list(vars(s).values()):
                if isinstance(v, jinja2.Environment):
                    try:
                        for t in v.list_templates():
                            v.get_template(t)
                    except Exception:
                        pass
    return real_getrandbits
