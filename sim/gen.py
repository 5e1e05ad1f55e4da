"""Seeded generator of workload modules (source text), values and targets.  Pure: no pyserde here."""
from __future__ import annotations

import random

HEADER = '''
import collections, dataclasses, datetime, decimal, enum, functools, ipaddress, pathlib, typing, uuid
import fractions
from collections import defaultdict, deque, Counter
from collections.abc import Sequence, MutableSequence, Mapping, MutableMapping
from dataclasses import dataclass
from datetime import date, time
from datetime import datetime as DateTime
from decimal import Decimal
from ipaddress import IPv4Address
from pathlib import Path
from typing import Any, Generic, Literal, NewType, Optional, TypeVar, Union, ClassVar
from uuid import UUID
import numpy as np
import numpy.typing as npt
import jaxtyping
from plum import dispatch
import serde
from serde import (serde as serde_deco, serialize, deserialize, field, ExternalTagging, InternalTagging,
    AdjacentTagging, Untagged, SerdeError, SerdeSkip, strict, coerce, disabled)
T = TypeVar("T")
U = TypeVar("U")

class Color(enum.Enum):
    RED = "red"
    BLUE = "blue"

class Level(enum.IntEnum):
    LOW = 1
    HIGH = 2

class Perm(enum.IntFlag):
    R = 1
    W = 2

class Mode(enum.IntFlag, boundary=enum.STRICT):
    X = 1
    Y = 2

class Kind(enum.Flag):
    A = 1
    B = 2

class Corner(enum.Enum):
    O = (0, 0)
    P = (1, 2)

class Word(str, enum.Enum):
    HI = "hi"
    YO = "yo"

F22 = jaxtyping.Float32[np.ndarray, "2 2"]
IntVec = jaxtyping.Int64[np.ndarray, "n"]
type Ints = list[int]
type Ident = Union[int, str]
UserId = NewType("UserId", int)

class MyStr(str):
    pass

class HPath(pathlib.PosixPath):
    def __str__(self):
        H.hook("str")
        return super().__str__()

class Pair:
    def __init__(self, a, b):
        self.a = a
        self.b = b
    def __eq__(self, o):
        return type(o) is Pair and (o.a, o.b) == (self.a, self.b)
    def __hash__(self):
        return hash((self.a, self.b))
    def __repr__(self):
        return f"Pair({self.a!r}, {self.b!r})"

@dataclass(frozen=True)
class Frozen:
    xs: list[int]
    m: dict[str, list[int]]

def ann(t):
    H.hook("ann")
    return t
def f_int_se(v):
    H.hook("f_int_se")
    return f"i{v}"
def f_int_de(v):
    H.hook("f_int_de")
    return int(v[1:])
def f_pair_se(v):
    H.hook("f_pair_se")
    return [v.a, v.b]
def f_pair_de(v):
    H.hook("f_pair_de")
    return Pair(v[0], v[1])
def f_dt_se(v):
    H.hook("f_dt_se")
    return v.strftime("%Y/%m/%d")
def f_dt_de(v):
    H.hook("f_dt_de")
    return DateTime.strptime(v, "%Y/%m/%d")
def p_neg(v):
    H.hook("p_neg")
    return v < 0
def p_pos(v):
    H.hook("p_pos")
    return v > 0
def p_short(v):
    H.hook("p_short")
    return len(v) < 2
def p_empty(v):
    H.hook("p_empty")
    return not v
def mk_int():
    H.hook("mk_int")
    return 7
def mk_list():
    H.hook("mk_list")
    return [1]
def mk_dict():
    H.hook("mk_dict")
    return {"k": 1}

def mk_nested():
    H.hook("mk_nested")
    return {"k": [1]}
def f_same(v):
    H.hook("f_same")
    return v
def to_num(v):
    H.hook("to_num")
    return float(v)

class HookSe:
    @classmethod
    def serialize(cls, obj, **opts):
        H.hook("se")
        return repr(obj)

class HookDe:
    @classmethod
    def deserialize(cls, data, **opts):
        H.hook("de")
        return eval(data)

class CodecA:
    @dispatch
    def serialize(self, value: DateTime) -> str:
        H.hook("serialize")
        return "A" + value.strftime("%d/%m/%y")
    @dispatch
    def serialize(self, value: Pair) -> Any:
        H.hook("serialize")
        return [value.a, value.b]

class CodecADe:
    @dispatch
    def deserialize(self, cls: type[DateTime], value: Any) -> DateTime:
        H.hook("deserialize")
        return DateTime.strptime(value, "A%d/%m/%y")
    @dispatch
    def deserialize(self, cls: type[Pair], value: Any) -> Pair:
        H.hook("deserialize")
        return Pair(value[0], value[1])

class CodecInt:
    @dispatch
    def serialize(self, value: int) -> Any:
        H.hook("serialize")
        return str(value + 1000)

class CodecIntDe:
    @dispatch
    def deserialize(self, cls: type[int], value: Any) -> int:
        H.hook("deserialize")
        return int(value) - 1000

class CodecDtB:
    @dispatch
    def serialize(self, value: DateTime) -> str:
        return "B" + value.strftime("%m-%d-%Y")

class CodecDtBDe:
    @dispatch
    def deserialize(self, cls: type[DateTime], value: Any) -> DateTime:
        return DateTime.strptime(value, "B%m-%d-%Y")

class CodecDtC:
    @dispatch
    def serialize(self, value: DateTime) -> str:
        return "C" + value.strftime("%Y.%m.%d")

class CodecDtCDe:
    @dispatch
    def deserialize(self, cls: type[DateTime], value: Any) -> DateTime:
        return DateTime.strptime(value, "C%Y.%m.%d")

class CodecPairB:
    @dispatch
    def serialize(self, value: Pair) -> Any:
        return {"pair_a": value.a, "pair_b": value.b}

class CodecPairBDe:
    @dispatch
    def deserialize(self, cls: type[Pair], value: Any) -> Pair:
        return Pair(value["pair_a"], value["pair_b"])

class CodecStd:
    @dispatch
    def serialize(self, value: Decimal) -> str:
        return "D" + str(value)
    @dispatch
    def serialize(self, value: UUID) -> str:
        return "U" + value.hex

class CodecStdDe:
    @dispatch
    def deserialize(self, cls: type[Decimal], value: Any) -> Decimal:
        return Decimal(value[1:])
    @dispatch
    def deserialize(self, cls: type[UUID], value: Any) -> UUID:
        return UUID(hex=value[1:])

class CodecStr:
    @dispatch
    def serialize(self, value: str) -> str:
        return "s_" + value

class CodecStrDe:
    @dispatch
    def deserialize(self, cls: type[str], value: Any) -> str:
        return value[2:]

class CodecEnum:
    @dispatch
    def serialize(self, value: Color) -> str:
        return "E" + value.name

class CodecEnumDe:
    @dispatch
    def deserialize(self, cls: type[Color], value: Any) -> Color:
        return Color[value[1:]]

class Unused:
    pass

class CodecUnused:
    @dispatch
    def serialize(self, value: Unused) -> Any:
        return "unused"

class CodecUnusedDe:
    @dispatch
    def deserialize(self, cls: type[Unused], value: Any) -> Unused:
        return Unused()

def legacy_se(cls, o):
    H.hook("legacy_se")
    if cls is DateTime:
        return "L" + o.strftime("%Y%m%d")
    raise SerdeSkip()

def legacy_de(cls, o):
    H.hook("legacy_de")
    if cls is DateTime:
        return DateTime.strptime(o, "L%Y%m%d")
    raise SerdeSkip()
'''


class Ty:
    """An annotation: source, value generator, and what it needs."""

    def __init__(self, src, val, *, hashable=False, refs=(), kind="", mutable=False, jsonkey=False):
        self.src = src
        self.val = val  # rng, depth -> expression source
        self.hashable = hashable
        self.refs = set(refs)
        self.kind = kind
        self.mutable = mutable
        self.jsonkey = jsonkey


def _w(rng, n=4):
    return "".join(rng.choice("abcdefgh") for _ in range(n))


PRIMS = [
    Ty("int", lambda r, d: str(r.randrange(-50, 1000)), hashable=True, kind="int"),
    Ty("str", lambda r, d: repr(_w(r)), hashable=True, kind="str", jsonkey=True),
    Ty("float", lambda r, d: repr(r.choice([0.5, -1.25, 3.0, 1e9])), hashable=True, kind="float"),
    Ty("bool", lambda r, d: r.choice(["True", "False"]), hashable=True, kind="bool"),
]
STD = [
    Ty("Decimal", lambda r, d: f"Decimal('{r.randrange(100)}.{r.randrange(10)}')", hashable=True, kind="std"),
    Ty("Path", lambda r, d: f"Path('/tmp/{_w(r)}')", hashable=True, kind="std"),
    Ty("UUID", lambda r, d: f"UUID(int={r.randrange(1 << 60)})", hashable=True, kind="std"),
    Ty("IPv4Address", lambda r, d: f"IPv4Address('10.0.0.{r.randrange(255)}')", hashable=True, kind="std"),
    Ty("DateTime", lambda r, d: f"DateTime(20{r.randrange(10, 60)}, {r.randrange(1, 12)}, {r.randrange(1, 28)})", hashable=True, kind="dt"),
    Ty("date", lambda r, d: f"date(2021, {r.randrange(1, 12)}, {r.randrange(1, 28)})", hashable=True, kind="std"),
    Ty("time", lambda r, d: f"time({r.randrange(24)}, {r.randrange(60)})", hashable=True, kind="std"),
]
ENUMS = [
    Ty("Color", lambda r, d: r.choice(["Color.RED", "Color.BLUE"]), hashable=True, kind="enum"),
    Ty("Level", lambda r, d: r.choice(["Level.LOW", "Level.HIGH"]), hashable=True, kind="enum"),
]
MISC = [
    Ty("UserId", lambda r, d: f"UserId({r.randrange(100)})", hashable=True, kind="newtype"),
    Ty("MyStr", lambda r, d: f"MyStr({_w(r)!r})", hashable=True, kind="sub"),
    Ty("Any", lambda r, d: r.choice(["1", "'x'", "[1, 2]", "{'k': 1}", "None"]), kind="any"),
    Ty("Literal['x', 'y', 3]", lambda r, d: r.choice(["'x'", "'y'", "3"]), hashable=True, kind="lit"),
    Ty("Literal[1, 2]", lambda r, d: r.choice(["1", "2"]), hashable=True, kind="lit"),
]
HPATH = Ty("Path", lambda r, d: f"HPath('/tmp/{_w(r)}')", hashable=True, kind="sub")
MISC.append(HPATH)
RICH = [
    Ty("Perm", lambda r, d: r.choice(["Perm.R", "Perm.R | Perm.W"]), hashable=True, kind="enum"),
    Ty("Mode", lambda r, d: r.choice(["Mode.X", "Mode.X | Mode.Y", "Mode(0)"]), hashable=True, kind="enum"),
    Ty("Kind", lambda r, d: r.choice(["Kind.A", "Kind.A | Kind.B"]), hashable=True, kind="enum"),
    Ty("Corner", lambda r, d: r.choice(["Corner.O", "Corner.P"]), hashable=True, kind="enum"),
    Ty("Word", lambda r, d: r.choice(["Word.HI", "Word.YO"]), hashable=True, kind="enum"),
    Ty("int", lambda r, d: r.choice(["0", "-1", "2 ** 53", "-(2 ** 62)"]), hashable=True, kind="int"),
    Ty("str", lambda r, d: r.choice(["''", "'\u00e9\u4e16'", "'a\"b'", "'1'", "'null'", "' x\\n'"]), hashable=True, kind="str"),
    Ty("DateTime", lambda r, d: r.choice(["DateTime(2020, 1, 2, 3, 4, 5, 678901)", "DateTime(2021, 5, 6, 7, 8, tzinfo=datetime.timezone.utc)",
                                          "DateTime(2021, 5, 6, 7, 8, 9, tzinfo=datetime.timezone(datetime.timedelta(hours=2)))"]),
       hashable=True, kind="dt"),
    Ty("time", lambda r, d: "time(1, 2, 3, 45678)", hashable=True, kind="std"),
    Ty("ipaddress.IPv6Address", lambda r, d: f"ipaddress.IPv6Address('fe80::{r.randrange(1, 99)}')", hashable=True, kind="std"),
]
def _s(src, val, kind="std", **kw):
    return Ty(src, val, kind=kind, **{"hashable": True, **kw})


WIDE = [
    _s("ipaddress.IPv4Network", lambda r, d: f"ipaddress.IPv4Network('10.{r.randrange(9)}.0.0/16')"),
    _s("ipaddress.IPv6Network", lambda r, d: "ipaddress.IPv6Network('fe80::/64')"),
    _s("ipaddress.IPv4Interface", lambda r, d: f"ipaddress.IPv4Interface('10.0.0.{r.randrange(1, 9)}/24')"),
    _s("ipaddress.IPv6Interface", lambda r, d: "ipaddress.IPv6Interface('fe80::1/64')"),
    _s("pathlib.PurePath", lambda r, d: f"pathlib.PurePath('p/{_w(r)}')"),
    _s("pathlib.PurePosixPath", lambda r, d: f"pathlib.PurePosixPath('/q/{_w(r)}')"),
    _s("pathlib.PureWindowsPath", lambda r, d: f"pathlib.PureWindowsPath('c:/{_w(r)}')"),
    _s("pathlib.PosixPath", lambda r, d: f"pathlib.PosixPath('{_w(r)}')"),
    _s("Decimal", lambda r, d: r.choice(["Decimal('1E+3')", "Decimal('-0.10')", "Decimal('0')"])),
    _s("float", lambda r, d: r.choice(["0.1", "1e-07", "-0.0", "1e300", "2.0"]), "float"),
    _s("date", lambda r, d: r.choice(["date(1, 2, 3)", "date(1999, 12, 31)"])),
    _s("DateTime", lambda r, d: r.choice(["DateTime(1, 1, 1)", "DateTime(1999, 12, 31, 23, 59, 59, 999999)",
                                          "DateTime(2021, 5, 6, 7, 8, tzinfo=datetime.timezone(datetime.timedelta(hours=-3, minutes=-30)))"]), "dt"),
    _s("time", lambda r, d: r.choice(["time(0, 0)", "time(23, 59, 59, 1)", "time(1, 2, tzinfo=datetime.timezone.utc)"])),
    _s("typing.List[int]", lambda r, d: r.choice(["[]", "[1, 2]"]), "seq", hashable=False, mutable=True),
    _s("typing.Dict[str, int]", lambda r, d: r.choice(["{}", "{'a': 1, 'b': 2}"]), "map", hashable=False, mutable=True),
    _s("typing.Set[str]", lambda r, d: r.choice(["set()", "{'a', 'bb', 'ccc'}"]), "set", hashable=False, mutable=True),
    _s("typing.Tuple[int, str]", lambda r, d: "(1, 'a')", "tup"),
    _s("typing.FrozenSet[int]", lambda r, d: "frozenset([1, 2])", "set"),
    _s("tuple[int, str, bool]", lambda r, d: "(1, 'a', True)", "tup"),
    _s("tuple[int]", lambda r, d: "(1,)", "tup"),
    _s("collections.abc.Set[int]", lambda r, d: "{1, 2, 3}", "set", hashable=False, mutable=True),
    _s("MutableMapping[str, int]", lambda r, d: "{'a': 1}", "map", hashable=False, mutable=True),
    _s("defaultdict[str, int]", lambda r, d: "defaultdict(int, {'a': 1})", "map", hashable=False, mutable=True),
    _s("dict[str, dict[str, list[date]]]", lambda r, d: "{'a': {'b': [date(2020, 1, 2)]}, 'c': {}}", "map", hashable=False, mutable=True),
    _s("list[tuple[str, UUID]]", lambda r, d: f"[('a', UUID(int={r.randrange(9)}))]", "seq", hashable=False, mutable=True),
    _s("np.int64", lambda r, d: f"np.int64({r.randrange(99)})", "np"),
    _s("np.float32", lambda r, d: f"np.float32({r.randrange(99)}.5)", "np"),
    _s("np.uint8", lambda r, d: f"np.uint8({r.randrange(99)})", "np"),  # np.bool_: known finding numpy-bool-shadow
    _s("npt.NDArray[np.int32]", lambda r, d: "np.array([1, 2], dtype=np.int32)", "np", hashable=False, mutable=True),
    _s("npt.NDArray[np.float64]", lambda r, d: "np.array([[1.5], [2.0]])", "np", hashable=False, mutable=True),
    _s("npt.NDArray", lambda r, d: r.choice(["np.array([1, 2])", "np.arange(8).reshape(2, 2, 2)"]), "np", hashable=False, mutable=True),
]
BARE = [
    Ty("list", lambda r, d: r.choice(["[]", "[1, 'x']", "[[1], {'a': 2}]"]), kind="bare"),
    Ty("dict", lambda r, d: r.choice(["{}", "{'a': 1}", "{'b': [1, 2], 'c': {'d': 3}}"]), kind="bare"),
    Ty("tuple", lambda r, d: r.choice(["()", "(1, 'x')"]), kind="bare"),
    Ty("set", lambda r, d: r.choice(["{1, 2}", "{'x', 'y', 'zz'}", "set()"]), kind="bare"),
    Ty("deque", lambda r, d: r.choice(["deque([1, 2])", "deque()"]), kind="bare"),
    Ty("frozenset", lambda r, d: r.choice(["frozenset([1, 2])", "frozenset()"]), kind="bare"),
]
DICTKEYS = [PRIMS[0], ENUMS[0], ENUMS[1], STD[2], STD[5]]
NUMPY = [
    Ty("np.ndarray", lambda r, d: f"np.array([{r.randrange(9)}, {r.randrange(9)}])", kind="np", mutable=True),
    Ty("np.int32", lambda r, d: f"np.int32({r.randrange(99)})", kind="np"),
    Ty("np.float64", lambda r, d: f"np.float64({r.randrange(99)}.5)", kind="np"),
    Ty("F22", lambda r, d: "np.array([[1, 2], [3, 4]], dtype=np.float32)", kind="np", mutable=True),
    Ty("IntVec", lambda r, d: f"np.array([{r.randrange(9)}, 3])", kind="np", mutable=True),
]


def rep(r, t, d, lo=0, hi=3):
    n = 0 if d <= 0 else r.randrange(lo, hi)
    return [t.val(r, d - 1) for _ in range(n)]


def t_opt(t, rng, unions=True):
    form = rng.choice(["Optional[{}]", "Optional[{}]", "{} | None", "Union[None, {}]"]) if unions else "Optional[{}]"
    return Ty(form.format(t.src), lambda r, d: "None" if d <= 0 or r.random() < 0.3 else t.val(r, d - 1),
              hashable=t.hashable, refs=t.refs, kind="opt")


def t_seq(t, rng):
    k = rng.choice(["list[{}]", "list[{}]", "tuple[{}, ...]", "deque[{}]", "Sequence[{}]", "MutableSequence[{}]"])
    wrap = {"l": "[{}]", "t": "tuple([{}])", "d": "deque([{}])", "S": "[{}]", "M": "[{}]"}[k[0]]
    return Ty(k.format(t.src), lambda r, d: wrap.format(", ".join(rep(r, t, d))), refs=t.refs, kind="seq",
              mutable=not k.startswith("tuple"))


def t_tup(a, b):
    return Ty(f"tuple[{a.src}, {b.src}]", lambda r, d: f"({a.val(r, d - 1)}, {b.val(r, d - 1)})",
              hashable=a.hashable and b.hashable, refs=a.refs | b.refs, kind="tup")


def t_set(t, rng):
    k = rng.choice(["set", "frozenset"])
    return Ty(f"{k}[{t.src}]", lambda r, d: f"{k}([{', '.join(rep(r, t, d))}])", refs=t.refs, kind="set",
              mutable=k == "set", hashable=k == "frozenset")


def t_map(t, rng):
    k = rng.choice(["dict[str, {}]", "dict[str, {}]", "Mapping[str, {}]", "defaultdict[str, {}]"])
    if k.startswith("defaultdict"):
        return Ty(f"defaultdict[str, list[{t.src}]]",
                  lambda r, d: "defaultdict(list, {" + ", ".join(f"{_w(r)!r}: [{v}]" for v in rep(r, t, d)) + "})",
                  refs=t.refs, kind="map", mutable=True)
    return Ty(k.format(t.src), lambda r, d: "{" + ", ".join(f"{_w(r)!r}: {v}" for v in rep(r, t, d)) + "}",
              refs=t.refs, kind="map", mutable=True)


def t_keys(k, t):
    return Ty(f"dict[{k.src}, {t.src}]", lambda r, d: "{" + ", ".join(f"{k.val(r, 0)}: {v}" for v in rep(r, t, d)) + "}",
              refs=t.refs, kind="map", mutable=True)


FROZEN = Ty("Frozen", lambda r, d: f"Frozen([{r.randrange(9)}], {{'q': [{r.randrange(9)}]}})", kind="frozen",
            hashable=True)
TUPL = Ty("tuple[list[int], dict[str, int]]", lambda r, d: f"([{r.randrange(9)}, 2], {{'w': {r.randrange(9)}}})", kind="tupl")
TUPV = Ty("tuple[list[int], ...]", lambda r, d: f"([{r.randrange(9)}], [3])", kind="tupl")


COUNTER = Ty("Counter[str]", lambda r, d: f"Counter(['a', {_w(r, 1)!r}])", kind="counter", mutable=True)


def t_union(ts):
    srcs = []
    uniq = []
    for t in ts:
        if t.src not in srcs:
            srcs.append(t.src)
            uniq.append(t)
    refs = set().union(*[t.refs for t in uniq])
    if len(uniq) == 1:
        return uniq[0]
    src = " | ".join(srcs) if sum(map(len, srcs)) % 4 == 0 else f"Union[{', '.join(srcs)}]"
    return Ty(src, lambda r, d: r.choice(uniq).val(r, d - 1), refs=refs, kind="union",
              hashable=all(t.hashable for t in uniq))


class Cls:
    def __init__(self, name):
        self.name = name
        self.fields = []  # (name, Ty, default_src or None, in_init)
        self.decos = []  # decorator source lines, in order
        self.plain = True
        self.body = []
        self.frozen = False
        self.base = None
        self.generic = False
        self.tparams = []
        self.kwargs_only = False
        self.transparent = False
        self.specs = []

    def ty(self):
        return Ty(self.name, self.value, hashable=self.frozen and all(f[1].hashable for f in self.all_fields()),
                  refs={self.name}, kind="cls")

    def all_fields(self):
        return (self.base.all_fields() if self.base else []) + self.fields

    def value(self, r, d=2):
        parts = []
        for n, t, dflt, init in self.all_fields():
            if not init:
                continue
            if dflt is not None and r.random() < 0.3:
                continue
            parts.append(f"{n}={t.val(r, d - 1)}")
        return f"{self.name}({', '.join(parts)})"

    def source(self):
        lines = list(self.decos)
        bases = []
        if self.base:
            bases.append(self.base.name)
        if self.tparams:
            bases.append(f"Generic[{', '.join(self.tparams)}]")
        lines.append(f"class {self.name}" + (f"({', '.join(bases)})" if bases else "") + ":")
        body = list(self.body)
        if not body:
            body = ["pass"]
        lines += ["    " + b for b in body]
        return "\n".join(lines)


TAGGINGS = ["ExternalTagging", "InternalTagging('type')", "AdjacentTagging('t', 'c')", "Untagged"]
CASES = ["camelcase", "snakecase", "pascalcase", "kebabcase", "constcase"]


STRESS = ["union", "cont", "default", "nest", "opt", "callback"]


class Schema:
    def __init__(self, rng, prefix="C"):
        self.rng = rng
        self.prefix = prefix
        self.classes: list[Cls] = []
        self.future = rng.random() < 0.5
        self.aliases = []
        self.same_codec = True  # field codecs that return their argument
        self.annhooks = False  # annotations evaluated through a user function
        self.unions = True
        self.hooky = 1.0  # more user callbacks
        self.untag = True  # False: untagged unions only where no undecorated class can be reached
        self.clean = False  # only declarations whose values survive a round trip exactly
        self.rich = rng.random() < 0.8  # less common types and declarations
        self.mutdefaults = 0.0  # fields whose declared plain default is or contains a mutable object
        # most cases stress one kind of declaration
        self.stress = rng.choice(STRESS) if rng.random() < 0.6 else None
        self.deonly = False  # subclasses of decorated classes that are decorated for decoding only
        self.gens = None  # decorated generic classes used as members
        self.genp = 0.15
        self.stdopts = True  # options of the standard library's json module
        self.baredeco = True  # decorators that make the dataclass themselves
        self.likep = rng.choice([0.0, 0.2, 0.5])  # classes that repeat fields of others

    def generics(self):
        r = self.rng
        if self.gens is None:
            self.gens = []
            if self.rich and r.random() < self.genp:
                g = Cls(f"{self.prefix}G")
                g.plain = False
                g.tparams = ["T"]
                g.body = ["v: T", "vs: list[T]", "m: dict[str, T] = dataclasses.field(default_factory=dict)", "n: int = 1"]
                g.body = [b for b in g.body if r.random() < 0.8 or b[:3] == "v: "]
                g.decos = ["@serde_deco" + r.choice(["", "", "(reuse_instances_default=True)", "(type_check=coerce)"]), "@dataclass"]
                g.generic = True
                self.gens.append(g)
        return self.gens

    def untagged_ok(self, refs):
        if self.untag:
            return True
        seen = set()
        todo = list(refs)
        by = {c.name: c for c in self.classes}
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            if n not in by or by[n].plain:
                return False
            for f in by[n].all_fields():
                todo += f[1].refs
        return True

    # -- types -------------------------------------------------------------------------------
    def leaf(self, hashable=False):
        r = self.rng
        x = r.random()
        if x < 0.5:
            return r.choice(PRIMS)
        if x < 0.75:
            return r.choice(STD)
        if x < 0.83:
            return r.choice(ENUMS)
        if x < 0.89 and self.rich:
            t = r.choice(RICH + WIDE)
            return r.choice(PRIMS) if hashable and not t.hashable else t
        t = r.choice(MISC)
        if self.clean and t.kind in ("any", "sub"):
            return PRIMS[1]
        if hashable and not t.hashable:
            return r.choice(PRIMS)
        return t

    def type(self, depth=2, pool=()):
        r = self.rng
        x = r.random()
        if self.stress is not None and depth > 0 and r.random() < 0.4:
            if self.stress == "union" and self.unions:
                u = self.union(pool, depth)
                y = r.random()
                return u if y < 0.6 or depth < 2 else t_seq(u, r) if y < 0.75 else t_map(u, r) if y < 0.9 else t_opt(u, r, False)
            if self.stress == "cont":
                x = r.choice([0.61, 0.61, 0.61, 0.71, 0.71, 0.87, 0.9])
            elif self.stress == "nest" and pool:
                return r.choice(pool).ty()
            elif self.stress == "opt":
                x = 0.8
        if self.gens and depth > 0 and r.random() < 0.15:
            arg = self.leaf() if r.random() < 0.6 or not pool else r.choice(pool).ty()
            return self.generic_ty(r.choice(self.gens), arg)
        if pool and x < 0.35:
            return r.choice(pool).ty()
        if depth <= 0 or x < 0.6:
            return self.leaf()
        if x < 0.70:
            return t_seq(self.type(depth - 1, pool), r)
        if x < 0.78:
            return t_map(self.type(depth - 1, pool), r)
        if x < 0.86:
            return t_opt(self.type(depth - 1, pool), r, self.unions)
        if x < 0.89:
            return t_set(r.choice(PRIMS[:2] + STD + ENUMS), r)
        if x < 0.92:
            return t_tup(self.type(depth - 1, pool), self.leaf())
        if x < 0.925:
            return COUNTER
        if x < 0.935:
            return r.choice(NUMPY)
        if x < 0.965 and self.rich:
            y = r.random()
            if y < 0.5 and not self.clean:
                return r.choice(BARE)
            if y < 0.8:
                return t_keys(r.choice(DICTKEYS), self.type(depth - 1, pool))
            return Ty("Ints", lambda r, d: "[1, 2]", kind="alias")
        return self.union(pool, depth) if self.unions else self.leaf()

    def union(self, pool=(), depth=1):
        r = self.rng
        if self.clean:
            return t_union([PRIMS[0], PRIMS[1]] if r.random() < 0.5 else [PRIMS[3], PRIMS[1]])
        n = r.randrange(2, 4)
        ts = []
        for _ in range(n):
            if pool and r.random() < 0.5:
                ts.append(r.choice(pool).ty())
            elif depth > 1 and r.random() < 0.2:
                ts.append(t_seq(r.choice(PRIMS), r))
            else:
                ts.append(r.choice(PRIMS + STD[:3] + ENUMS[:1]))
        return t_union(ts)

    # -- classes -----------------------------------------------------------------------------
    def new_class(self, plain=True, pool=(), opts=None, nfields=None, name=None, codecs=True, self_ref=None,
                  fwd=(), base=None, callbacks=True, hooks=False):
        r = self.rng
        c = Cls(name or f"{self.prefix}{len(self.classes)}")
        c.plain = plain
        c.base = base
        c.frozen = base.frozen if base else r.random() < (0.5 if self.stress == "default" else 0.12)
        if self.rich and not plain and not base and not fwd and not self_ref and not nfields and r.random() < 0.12:
            return self.transparent_class(c, pool, callbacks, opts)
        n = nfields or r.randrange(1, 5)
        specs = []
        taken = {f[0] for f in base.all_fields()} if base else set()
        like = None
        if not base and not nfields and r.random() < self.likep:
            known = {k.name for k in pool} | {g.name for g in self.gens or []}
            like = r.choice([k for k in self.classes if k.specs and k.plain == plain
                             and all(x[1].refs <= known for x in k.specs)] or [None])
        if like is not None:  # another version of an earlier class
            specs = [x for x in like.specs if r.random() < 0.85]
            n = r.choice([0, 0, 1, 1, 2]) if specs else n
        for i in range(n):
            fname = r.choice(["a", "b_c", "x_y", "val", "num", "kind_of"]) + str(i)
            while base and (fname in taken or not fname.endswith("_d")):
                fname += "_d"
            while any(fname == x[0] for x in specs):
                fname += "_n"
            specs.append(self.field(fname, pool, plain, codecs, callbacks))
        c.specs = [x for x in specs if "flatten" not in x[4]]
        names = taken | {x[0] for x in specs}
        for i, (fname, ty, dflt, init, src) in enumerate(specs):
            if "flatten=True" in src:  # no clash of names
                child = next((k for k in self.classes if k.name == ty.src), None)
                if child is None or child.transparent or names & {f[0] for f in child.all_fields()} or \
                        any("flatten=True" in x[4] for x in specs[:i]):
                    specs[i] = (fname, ty, dflt, init, src.replace("flatten=True", "metadata={}"))
        if self_ref or (self_ref is None and plain and r.random() < 0.12):
            q = r.choice(['Optional["{}"]', 'list["{}"]', 'dict[str, "{}"]'])
            specs.append(self._ref_field("nxt" + c.name[-1:].lower(), q, c))
        for f in fwd:  # f: Cls defined later (mutual recursion)
            q = r.choice(['Optional["{}"]', 'list["{}"]'])
            specs.append(self._ref_field("to_" + f.name.lower(), q, f))
        if base and any(f[2] is not None for f in base.all_fields()):
            # after inherited defaults everything needs a default
            specs = [s for s in specs if s[2] is not None] or [
                (f"z{len(taken)}_d", PRIMS[0], "3", True, f"z{len(taken)}_d: int = 3")
            ]
        if self.rich and not plain and not base and r.random() < 0.06 and not self.clean:
            specs.append(("extra_z", Ty("dict[str, Any]", lambda r, d: r.choice(["{}", "{'zz': 1, 'zy': [2]}"]), kind="map", mutable=True),
                          "{}", True, "extra_z: dict[str, Any] = field(flatten=True, default_factory=dict)"))
        if self.rich and not self.clean and r.random() < 0.12:
            q = r.choice(["skip=True, default=3", "skip_serializing=True, default=4", "skip_deserializing=True, default=5",
                          "skip=True, default_factory=mk_int", "skip_if_none=True, default=None"])
            t = "Optional[int]" if "none" in q else "int"
            specs.append(("sk" + c.name[-1:].lower(), Ty(t, lambda r, d: str(r.randrange(9)), hashable=True, kind="int"), "3", True,
                          f"sk{c.name[-1:].lower()}: {t} = field({q})"))
        if self.rich and r.random() < 0.05:
            specs.append(("ni" + c.name[-1:].lower(), PRIMS[0], "8", False,
                          f"ni{c.name[-1:].lower()}: int = dataclasses.field(init=False, default=8)"))
        specs.sort(key=lambda s: s[2] is not None)
        for name_, ty, dflt, init, src in specs:
            c.fields.append((name_, ty, dflt, init))
            c.body.append(src)
        if r.random() < 0.1:
            cvs = ["cv: ClassVar[int] = 5", "alpha_cv: ClassVar[str] = 'w'", "z_cv: ClassVar[list[int]] = [1]",
                   "m_cv: ClassVar[Optional[int]] = None"]
            c.body += r.sample(cvs, r.choice([1, 2, 3]))
        initvar = self.rich and not base and not plain and r.random() < 0.06 and not self.clean
        if initvar:
            c.body.append("iv: dataclasses.InitVar[int] = 3")
        if hooks and r.random() < 0.2 * self.hooky:
            ints = [f[0] for f in c.all_fields() if f[1].kind == "int" and f[3]]
            if ints:
                c.body += ["def __post_init__(self, *iv):",
                           "    H.hook('__post_init__')",
                           f"    if self.{ints[0]} == 77777:",
                           f"        raise ValueError('{c.name} says no')"]
        if initvar and not any("__post_init__" in b for b in c.body):
            c.body += ["def __post_init__(self, iv):", "    H.hook('__post_init__')"]
        dargs = ["frozen=True"] if c.frozen else []
        if self.rich and r.random() < 0.06:
            dargs.append("kw_only=True")
        if self.rich and not base and r.random() < 0.05:
            dargs.append("slots=True")
        dc = "@dataclass" + (f"({', '.join(dargs)})" if dargs else "")
        if plain:
            c.decos = [dc]
        else:
            c.decos = self.decorators(c, dc, opts)
        self.classes.append(c)
        return c

    def transparent_class(self, c, pool, callbacks, opts=None):
        r = self.rng
        c.transparent = True
        x = r.random()
        if x < 0.35 and not self.clean:
            ty = r.choice(BARE[:2] + [Ty("dict[str, Any]", BARE[1].val, kind="map", mutable=True)])
        elif x < 0.6 and pool:
            ty = r.choice(pool).ty()
        else:
            ty = self.type(1, pool)
        src = f"inner: {ty.src}"
        if ty.kind in ("bare", "seq", "map") and callbacks and self.same_codec and r.random() < 0.4:
            src += " = field(serializer=f_same, deserializer=f_same)"
        c.fields = [("inner", ty, None, True)]
        c.body = [src]
        if r.random() < 0.3:
            c.body += ["def __post_init__(self):", "    H.hook('__post_init__')"]
        if r.random() < 0.2:
            c.body.insert(1, "memo: int = field(skip=True, init=False, default=6)")
        o = [x for x in (self.class_opts(c) if opts is None else opts)
             if x.startswith(("type_check", "tagging", "reuse", "convert"))]
        dc = "@dataclass" + ("(frozen=True)" if c.frozen else "")
        c.decos = self.decorators(c, dc, ["transparent=True"] + o)
        self.classes.append(c)
        return c

    def _ref_field(self, name, q, target):
        if q.startswith("Optional"):
            ty = Ty(q.format(target.name), lambda r, d: "None" if d <= 0 or r.random() < 0.5 else target.value(r, d - 1),
                    refs={target.name}, kind="opt")
            return (name, ty, "None", True, f"{name}: {ty.src} = None")
        if q.startswith("list"):
            ty = Ty(q.format(target.name), lambda r, d: "[" + ("" if d <= 0 or r.random() < 0.5 else target.value(r, d - 1)) + "]",
                    refs={target.name}, kind="seq", mutable=True)
            return (name, ty, "[]", True, f"{name}: {ty.src} = dataclasses.field(default_factory=list)")
        ty = Ty(q.format(target.name), lambda r, d: "{" + ("" if d <= 0 or r.random() < 0.5 else "'k': " + target.value(r, d - 1)) + "}",
                refs={target.name}, kind="map", mutable=True)
        return (name, ty, "{}", True, f"{name}: {ty.src} = dataclasses.field(default_factory=dict)")

    def field(self, name, pool, plain, codecs, callbacks=True):
        """-> (name, Ty, default or None, init, source line)"""
        r = self.rng
        if self.mutdefaults and r.random() < self.mutdefaults:
            ty = r.choice([FROZEN, FROZEN, TUPL, TUPV])
            v = ty.val(r, 1)
            x = r.random()
            opt = ", skip_if_default=True" if x < 0.2 else f", rename={('r_' + name)!r}" if x < 0.4 else ""
            if opt:
                return (name, ty, v, True, f"{name}: {ty.src} = field(default={v}{opt})")
            return (name, ty, v, True, f"{name}: {ty.src} = {v}")
        ty = self.type(2, pool)
        if self.rich and r.random() < 0.03:
            ty = Ty("dict[str, list[int]]", lambda r, d: f"{{'q': [{r.randrange(9)}]}}", kind="map", mutable=True)
        attrs = []
        dflt = None
        dense = self.stress == "default"
        if r.random() < (0.7 if dense else 0.25):
            if ty.mutable and ty.kind in ("seq", "map", "set", "counter"):
                base = ty.src.split("[")[0]
                if ty.src == "dict[str, list[int]]" and r.random() < 0.7:
                    base = "nested"
                fac = {"nested": "mk_nested", "list": "list", "deque": "deque", "Sequence": "list", "MutableSequence": "list", "dict": "dict",
                       "Mapping": "dict", "set": "set", "Counter": "Counter"}.get(base)
                if fac:
                    dflt = f"{fac}()"
                    attrs.append(f"default_factory={fac}")
            elif ty.kind == "cls":
                v = ty.val(r, 1)
                if ty.hashable:
                    dflt = v
                    attrs.append(f"default={v}")
                else:
                    dflt = v
                    attrs.append(f"default_factory=lambda: {v}")
            elif ty.kind in ("int", "str", "float", "bool", "opt", "std", "dt", "enum", "newtype", "lit"):
                v = ty.val(r, 0)
                dflt = v
                if ty.kind == "int" and r.random() < 0.3:
                    attrs.append("default_factory=mk_int")
                else:
                    attrs.append(f"default={v}")
        fieldfn = "dataclasses.field"
        # field options also apply to undecorated classes (serde.field metadata)
        if ty.kind == "cls" and dflt is not None and ty.hashable and r.random() < (0.7 if dense else 0.4) and not self.clean:
            fieldfn = "field"
            attrs.append("skip_if_default=True")
        elif r.random() < (0.4 if not plain else 0.2) * self.hooky * (2 if self.stress in ("default", "callback") else 1):
            fieldfn = "field"
            x = r.random()
            if dense and dflt is not None and r.random() < 0.5:
                x = 0.5
            elif self.stress == "callback" and r.random() < 0.5:
                x = 0.7
            if self.clean and (0.4 <= x < 0.65 or 0.85 <= x):
                x = 0.1
            if x < 0.25:
                attrs.append(f"rename={('r_' + name)!r}")
            elif x < 0.4 and ty.kind in ("int", "str", "float", "bool", "std", "dt", "enum", "cls"):
                attrs.append(f"alias=[{('al_' + name)!r}" + (f", {('AL_' + name)!r}]" if r.random() < 0.5 else "]"))
            elif x < 0.55 and dflt is not None:
                attrs.append(r.choice(["skip_if_default=True", "skip_if_false=True"]))
            elif x < 0.65 and ty.kind == "int" and callbacks:
                attrs.append("skip_if=p_neg")
                if dflt is None:
                    dflt = "0"
                    attrs.append("default=0")
            elif x < 0.65 and callbacks and not self.clean and self.rich:
                attrs.append(f"skip_if={r.choice(['p_pos', 'p_empty', 'p_short'])}")
            elif x < 0.85 and codecs:
                if ty.kind == "int":
                    attrs.append("serializer=f_int_se, deserializer=f_int_de")
                elif ty.kind == "dt":
                    attrs.append("serializer=f_dt_se, deserializer=f_dt_de")
                else:
                    ty = Ty("Pair", lambda r, d: f"Pair({r.randrange(9)}, 'p')", hashable=True, kind="pair")
                    attrs = [a for a in attrs if not a.startswith("default")]
                    dflt = None
                    attrs.append("serializer=f_pair_se, deserializer=f_pair_de")
            elif x < 0.93 and ty.kind == "cls" and dflt is None:
                attrs.append("flatten=True")
            elif ty.kind in ("bare", "seq", "map") and codecs and self.same_codec and self.rich and not ty.refs and not plain:
                attrs.append("serializer=f_same, deserializer=f_same")
        ann = ty.src
        if self.annhooks and r.random() < 0.15:
            ann = '"ann(' + ann.replace('"', "'") + ')"'
        if not attrs:
            return (name, ty, None, True, f"{name}: {ann}")
        return (name, ty, dflt, True, f"{name}: {ann} = {fieldfn}({', '.join(attrs)})")

    def decorators(self, c, dc, opts=None):
        r = self.rng
        if opts is None:
            opts = self.class_opts(c)
        o = ", ".join(opts)
        style = r.random()
        both = [x for x in opts if not x.startswith(("deserializer", "class_deserializer", "deny_unknown", "serializer",
                                                     "class_serializer", "serialize_class_var"))]
        if self.baredeco and dc == "@dataclass" and self.rich and r.random() < 0.1 and (
                not c.base or c.base.decos[-1][:10] == "@dataclass"):
            dcs = []
        else:
            dcs = [dc]
        if self.deonly and c.base and not c.base.plain and r.random() < 0.4:
            de = both + [x for x in opts if x.startswith(("deserializer", "class_deserializer", "deny_unknown"))]
            d = [f"@deserialize({', '.join(de)})"]
        elif style < 0.6:
            d = [f"@serde_deco({o})" if o else "@serde_deco"]
        elif style < 0.8:
            se = both + [x for x in opts if x.startswith(("serializer", "class_serializer", "serialize_class_var"))]
            de = both + [x for x in opts if x.startswith(("deserializer", "class_deserializer", "deny_unknown"))]
            d = [f"@deserialize({', '.join(de)})" if de else "@deserialize",
                 f"@serialize({', '.join(se)})" if se else "@serialize"]
        else:
            d = [f"@serde_deco({o})"]
        return d + dcs

    def class_opts(self, c):
        r = self.rng
        opts = []
        if r.random() < 0.3:
            opts.append(f"rename_all={r.choice(CASES)!r}")
        if r.random() < 0.3:
            t = r.choice(TAGGINGS)
            if t == "Untagged" and not (self.untag or c and self.untagged_ok(set().union(*[f[1].refs for f in c.all_fields()]) - {c.name})):
                t = "ExternalTagging"
            opts.append(f"tagging={t}")
        if r.random() < 0.3:
            opts.append(f"type_check={r.choice(['strict', 'coerce', 'disabled'])}")
        if r.random() < 0.15:
            opts.append("deny_unknown_fields=True")
        if r.random() < 0.1:
            opts.append("skip_if_default=True")
        if r.random() < 0.1:
            opts.append("skip_if_none=True")
        x = r.random()
        if x < 0.12:
            opts.append("class_serializer=CodecA(), class_deserializer=CodecADe()")
        elif x < 0.18:
            opts.append("class_serializer=CodecInt(), class_deserializer=CodecIntDe()")
        elif x < 0.26:
            opts.append("serializer=legacy_se, deserializer=legacy_de")
        if r.random() < (0.6 if c and any("ClassVar" in b for b in c.body) else 0.05):
            opts.append("serialize_class_var=True")
        if r.random() < 0.1:
            opts.append("reuse_instances_default=True")
        if r.random() < 0.1:
            opts.append("convert_sets_default=True")
        if self.clean:
            opts = [o for o in opts if not o.startswith("skip") and "CodecInt" not in o and "deny" not in o]
        return opts

    def generic_class(self, pool=(), plain=True):
        r = self.rng
        c = Cls(f"{self.prefix}{len(self.classes)}")
        c.plain = plain
        c.tparams = ["T"]
        tv = Ty("T", None)
        c.body = ["v: T", "vs: list[T]", "n: int = 1"]
        c.decos = ["@dataclass"] if plain else ["@serde_deco", "@dataclass"]
        c.generic = True
        c.fields = []
        self.classes.append(c)
        return c

    def generic_ty(self, g, arg):
        vs = any(b.startswith("vs:") for b in g.body)
        m = any(b.startswith("m:") for b in g.body)

        def val(r, d):
            s = f"v={arg.val(r, d - 1)}"
            if vs:
                s += f", vs=[{arg.val(r, d - 1)}]"
            if m and r.random() < 0.5:
                s += f", m={{'g': {arg.val(r, d - 1)}}}"
            return f"{g.name}({s})"

        return Ty(f"{g.name}[{arg.src}]", val, refs=arg.refs | {g.name}, kind="generic")

    def source(self, classes=None, header=True):
        parts = []
        if header:
            parts.append(("from __future__ import annotations\n" if self.future else "") + HEADER)
        for c in classes if classes is not None else self.classes:
            parts.append(c.source())
        for a in self.aliases:
            parts.append(a)
        return "\n\n".join(parts) + "\n"


# msgpackt: named=False
FORMATS = ["dict", "tuple", "json", "msgpack", "msgpackt", "yaml", "toml", "pickle"]
FMT_W = [8, 4, 10, 3, 1, 2, 2, 2]


def pick_fmt(rng, allowed=None):
    fs = [f for f in FORMATS if allowed is None or f in allowed]
    return rng.choices(fs, [FMT_W[FORMATS.index(f)] for f in fs])[0]


FMT_OPTS = {
    "json": [{"sort_keys": True}, {"indent": 2}, {"ensure_ascii": True}, {"separators": "=(', ', ': ')"}],
    "yaml": [{"sort_keys": False}, {"default_flow_style": True}],
    "toml": [{"multiline_strings": True}, {"indent": 2}],
    "pickle": [{"protocol": 2}],
    "msgpack": [{"use_bin_type": True}],
}


def ser_opts(rng, fmt, std=True):
    o = {}
    if fmt in FMT_OPTS and rng.random() < 0.08 and (std or fmt != "json"):
        o = dict(rng.choice(FMT_OPTS[fmt]))
        if rng.random() < 0.3 and fmt in ("json", "yaml", "toml") and std:
            o["se"] = "=HookSe"
    if rng.random() < 0.75:
        return o
    if True:
        x = rng.random()
        if x < 0.35:
            o["skip_none"] = True
        elif x < 0.6:
            o["reuse_instances"] = rng.choice([True, False])
        elif x < 0.8:
            o["convert_sets"] = rng.choice([True, False])
    return o


def wrap_target(rng, ty):
    """Possibly a container / optional of the type, as a top-level target with its value."""
    x = rng.random()
    if x < 0.6:
        return ty
    if x < 0.75:
        return Ty(f"list[{ty.src}]", lambda r, d: f"[{ty.val(r, d)}]", refs=ty.refs, kind="seq")
    if x < 0.85:
        return Ty(f"Optional[{ty.src}]", lambda r, d: ty.val(r, d), refs=ty.refs, kind="opt")
    if x < 0.93:
        return Ty(f"dict[str, {ty.src}]", lambda r, d: "{'k': " + ty.val(r, d) + "}", refs=ty.refs, kind="map")
    f, v = rng.choice([("deque[{}]", "deque([{0}, {1}])"), ("tuple[{}, ...]", "({0}, {1})"), ("tuple[{}, int]", "({0}, 3)"),
                       ("dict[str, list[{}]]", "{{'a': [{0}], 'b': [{1}, {0}]}}"), ("list[dict[str, {}]]", "[{{'k': {0}}}, {{'j': {1}}}]"),
                       ("Optional[list[{}]]", "[{0}, {1}]")] + [("set[{}]", "{{{0}, {1}}}"), ("frozenset[{}]", "frozenset([{0}])")] * ty.hashable)
    return Ty(f.format(ty.src), lambda r, d: v.format(ty.val(r, d), ty.val(r, d)), refs=ty.refs, kind="seq", mutable=True)
