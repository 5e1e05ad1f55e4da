"""Executes the operations of a run spec inside a forked child."""
from __future__ import annotations

import base64
import contextlib
import gc
import pickle
import sys
import types
import warnings

from . import engine
from .canon import canon, canon_exc
from .engine import masked

EXPR_FN = "<expr>"


def compile_expr(src):
    return compile(src, EXPR_FN, "eval", dont_inherit=True)


class World:
    """Namespaces, prepared values and documents of one child process."""

    def __init__(self, spec):
        import serde
        import serde.json
        import serde.msgpack
        import serde.pickle
        import serde.toml
        import serde.yaml

        self.spec = spec
        self.serde = serde
        self.mods = {}
        self.ns = None
        self.shared = {}
        self.sites = {}  # code sites passed by baselines
        self.flags = {}
        self.docs = {}
        self.quiet = 0  # > 0: the harness, not the library, is running user code
        self.nhook = {}  # thread -> number of user callbacks run so far in its current operation
        self.hook_plan = {}  # (thread, n) -> what the n-th callback does
        self.hook_log = None
        self.fns = {
            "ser": {
                "dict": lambda v, c, o: serde.to_dict(v, c=c, **o),
                "tuple": lambda v, c, o: serde.to_tuple(v, c=c, **o),
                "json": lambda v, c, o: serde.json.to_json(v, cls=c, **o),
                "msgpack": lambda v, c, o: serde.msgpack.to_msgpack(v, cls=c, **o),
                "msgpackt": lambda v, c, o: serde.msgpack.to_msgpack(v, cls=c, named=False, **o),
                "toml": lambda v, c, o: serde.toml.to_toml(v, cls=c, **o),
                "yaml": lambda v, c, o: serde.yaml.to_yaml(v, cls=c, **o),
                "pickle": lambda v, c, o: serde.pickle.to_pickle(v, cls=c, **o),
            },
            "de": {
                "dict": lambda c, d, o: serde.from_dict(c, d, **o),
                "tuple": lambda c, d, o: serde.from_tuple(c, d, **o),
                "json": lambda c, d, o: serde.json.from_json(c, d, **o),
                "msgpack": lambda c, d, o: serde.msgpack.from_msgpack(c, d, **o),
                "msgpackt": lambda c, d, o: serde.msgpack.from_msgpack(c, d, named=False, **o),
                "toml": lambda c, d, o: serde.toml.from_toml(c, d, **o),
                "yaml": lambda c, d, o: serde.yaml.from_yaml(c, d, **o),
                "pickle": lambda c, d, o: serde.pickle.from_pickle(c, d, **o),
            },
        }

    # -- set up -------------------------------------------------------------------------------
    def load(self):
        spec = self.spec
        engine.RNGVAL[0] = spec.get("rng", 0)
        self.serde.init(debug=bool(spec.get("debug")))
        for m in spec["modules"]:
            self.add_module(m["name"], "\n\n".join(m["parts"]) + "\n")
        first = spec["modules"][0]["name"] if spec["modules"] else None
        self.ns = self.mods[first].__dict__ if first else {}
        for m in list(self.mods.values())[1:]:
            for k, v in m.__dict__.items():
                self.ns.setdefault(k, v)
        for name, e in spec.get("shared", {}).items():
            self.ns[name] = self.shared[name] = self.ev(e)
        for name, b in spec.get("docs", {}).items():
            self.ns[name] = self.docs[name] = self.undoc(b)

    def undoc(self, b):
        return load_blob(b, self)

    def add_module(self, name, src):
        m = types.ModuleType(name)
        m.__dict__["H"] = self
        m.__file__ = f"<wl:{name}>"
        sys.modules[name] = m
        engine.WORKLOAD_MODULES.add(name)
        self.mods[name] = m
        code = compile(src, f"<wl:{name}>", "exec", dont_inherit=True)
        exec(code, m.__dict__)
        return m

    def ev(self, e):
        return eval(compile_expr(e), self.ns)

    # -- harness services for workload callbacks ----------------------------------------------
    def hook(self, name):
        """Called at the start of every user callback."""
        if self.quiet:
            return
        s = engine.SIM
        tid = s.cur() if s is not None else None
        n = self.nhook[tid] = self.nhook.get(tid, 0) + 1
        if self.hook_log is not None:
            self.hook_log.append((tid, n, name))
        a = self.hook_plan.get((tid, n))
        if a is not None:
            a(name)

    @contextlib.contextmanager
    def harness(self):
        """Code of the harness: no scheduling point, and user code it calls does nothing planned."""
        with masked():
            self.quiet += 1
            try:
                yield
            finally:
                self.quiet -= 1

    def flag(self, name):
        f = self.flags.get(name)
        if f is None:
            f = self.flags[name] = engine.Flag(name)
        return f

    def nested(self, op):
        """A call made by a user callback; its own callbacks do nothing special."""
        s = engine.SIM
        tid = s.cur() if s is not None else None
        n = self.nhook.get(tid, 0)
        plan, self.hook_plan = self.hook_plan, {k: v for k, v in self.hook_plan.items() if k[0] != tid}
        out = self.run_op(op)
        for k, v in plan.items():
            self.hook_plan.setdefault(k, v)
        self.nhook[tid] = n
        return out

    def wait_thread(self, t):
        s = engine.SIM
        if s is not None and s.cur() is not None and t < s.n and t != s.cur():
            s.wait_done(t)

    # -- operations ---------------------------------------------------------------------------
    def run_op(self, op, raw=False):
        """-> outcome (JSON-able); with raw also the object returned or raised."""
        with self.harness():
            self.nhook[engine.SIM.cur() if engine.SIM is not None else None] = 0
            try:
                thunk = self.prepare(op)
            except Exception as e:
                out = ["bad", canon_exc(e)]
                return (out, None) if raw else out
        obj = None
        kind = "ok"
        try:
            obj = thunk()
        except BaseException as e:
            with masked():
                kind = "err"
                obj = e
                e.__traceback__ = None
        with self.harness():
            if kind == "ok":
                out = ["ok", canon(obj)]
            else:
                out = ["err", canon_exc(obj)]
        return (out, obj) if raw else out

    def prepare(self, op):
        k = op["k"]
        if k == "ser":
            v = self.ev(op["v"])
            c = self.ev(op["c"]) if op.get("c") else None
            o = {a: (self.ev(b[1:]) if isinstance(b, str) and b.startswith("=") else b) for a, b in (op.get("o") or {}).items()}
            fn = self.fns["ser"][op["fmt"]]
            return lambda: fn(v, c, o)
        if k == "de":
            c = self.ev(op["c"])
            d = self.ev(op["d"])
            o = {a: (self.ev(b[1:]) if isinstance(b, str) and b.startswith("=") else b) for a, b in (op.get("o") or {}).items()}
            fn = self.fns["de"][op["fmt"]]
            return lambda: fn(c, d, o)
        if k == "rt":
            v = self.ev(op["v"])
            c = self.ev(op["c"]) if op.get("c") else None
            t = self.ev(op["t"])
            o = dict(op.get("o") or {})
            se = self.fns["ser"][op["fmt"]]
            de = self.fns["de"][op["fmt"]]

            def rt():
                doc = se(v, c, o)
                with self.harness():
                    cd = canon(doc)
                    if "drop" in op or "mut" in op:
                        from .ops import altered

                        doc = altered(op, doc)
                res = de(t, doc, {})
                return (RawCanon(cd), res)

            return rt
        if k == "exec":  # run workload source (class definitions) in the workload module
            mod = self.mods[op["mod"]]
            code = compile(op["src"], f"<wl:{op['mod']}>", "exec", dont_inherit=True)

            def ex():
                exec(code, mod.__dict__)

            return ex
        if k == "deco":  # apply a decorator expression to an existing class
            c = self.ev(op["c"])
            d = self.ev(op["d"])

            def de_():
                r = d(c)
                return r is c

            return de_
        if k == "reg":
            e = self.ev(op["e"])
            f = self.serde.add_serializer if op["w"] == "se" else self.serde.add_deserializer
            return lambda: f(e)
        if k == "call":  # an arbitrary expression, evaluated as user code
            code = compile(op["e"], f"<wl:{self.spec['modules'][0]['name']}>", "eval", dont_inherit=True)
            ns = self.ns
            return lambda: eval(code, ns)
        if k == "del":
            name = op["name"]

            def dl():
                for m in self.mods.values():
                    m.__dict__.pop(name, None)
                self.ns.pop(name, None)

            return dl
        if k == "gc":
            def g():
                with masked():
                    gc.collect()

            return g
        if k == "nop":
            return lambda: None
        raise engine.HarnessError(f"unknown op {k}")


class RawCanon:
    """Already canonical."""

    def __init__(self, c):
        self.c = c

    def __repr__(self):
        import json

        return json.dumps(self.c)


def dump_blob(doc):
    if type(doc) is str:
        return {"s": doc}
    if type(doc) is bytes:
        return {"b": base64.b64encode(doc).decode()}
    return {"p": base64.b64encode(pickle.dumps(doc)).decode()}


def load_blob(b, world=None):
    if "s" in b:
        return b["s"]
    if "b" in b:
        return base64.b64decode(b["b"])
    if "e" in b:
        return world.ev(b["e"])
    return pickle.loads(base64.b64decode(b["p"]))


def run_threads(world, spec, strategy, *, faults=(), observer=None, before_op=None, after_op=None, record_sites=False):
    """Run spec["threads"] under the scheduler.  -> (sim, outcomes per thread)."""
    threads = spec["threads"]
    n = len(threads)
    sim = engine.Sim(n, strategy, fine=bool(spec.get("fine")), observer=observer,
                     step_limit=spec.get("step_limit", 3_000_000))
    sim.faults = list(faults)
    if record_sites:
        sim.fault_sites = []
    outs = [[] for _ in range(n)]
    raws = [[] for _ in range(n)]

    def body(i):
        def f():
            for j, op in enumerate(threads[i]):
                if "flag_wait" in op:
                    world.flag(op["flag_wait"]).wait()
                if before_op is not None:
                    with world.harness():
                        before_op(sim, i, j, op)
                if faults:
                    sim.arm(i, j)
                try:
                    r, obj = world.run_op(op, raw=True)
                finally:
                    sim.disarm(i)
                outs[i].append(r)
                raws[i].append(obj)
                if after_op is not None:
                    with world.harness():
                        after_op(sim, i, j, op, r, obj)
                if "flag_set" in op:
                    world.flag(op["flag_set"]).set()

        return f

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sim.run([body(i) for i in range(n)])
    sim.raws = raws
    return sim, outs
