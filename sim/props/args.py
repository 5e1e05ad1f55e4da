"""C10: arguments and declared defaults are never modified, at any instant."""
from __future__ import annotations

import random

from .. import common, engine, faults as F, gen, world as W
from ..canon import canon, freeze
from ..common import Prop, Skip, cut, h
from ..faultprop import ekind
from ..forkrun import in_child
from ..ops import OpGen, attach_docs, targets
from ..reach import Watch, defaults_of
from .first_use import parts


class Args(Prop):
    id = "C10"
    quick_cases = 4000
    variants_per_case = 5
    case_cost = 4_000_000  # look-ups at watched objects, after which a case is left
    level = "fault_enumeration"
    technique = ("deterministic simulation with fault injection: arguments and defaults compared at every step of "
                 "seeded, partly interrupted calls")
    nontrivial_key = "watched_runs"
    rule = (
        "a case is a module and calls on it; in each run every mutable object reachable from the arguments and from "
        "declared defaults is compared with its initial content at every scheduling step, in calls that succeed, that "
        "get bad documents and that are cut short at a seeded point; non-trivial when at least one mutable object was "
        "watched for at least one step, distinct by case and faults"
    )
    level_note = (
        "Seeded calls and fault positions; the watched objects are compared at every line (bytecode in fine runs) of "
        "pyserde, generated and user code, so also modifications that are undone before the call ends are seen. "
        "Changes made and undone inside one line of third-party code are not."
    )
    assumptions = ["documents are not defaultdicts (whose reads insert) and user callbacks do not modify what they get"]

    def make(self, rng, tier):
        s = gen.Schema(rng)
        s.hooky = rng.choice([1.0, 1.0, 2.0])
        s.mutdefaults = rng.choice([0.0, 0.15, 0.3])
        classes = []
        for i in range(rng.randrange(1, 5)):
            base = rng.choice(classes) if classes and rng.random() < 0.15 else None
            plain = base.plain if base else rng.random() < 0.3
            classes.append(s.new_class(plain=plain, pool=classes[:], base=base,
                                       opts=None if rng.random() < 0.7 else [], hooks=True))
        case = {"modules": [{"name": "wl_m", "parts": parts(s)}], "shared": {}, "docs_from": {}, "threads": [],
                "fine": rng.random() < 0.35, "rng": rng.randrange(1 << 30)}
        og = OpGen(rng, case, targets(rng, s, classes), bad=0.3, share=1.0, weights=(5, 6, 0))
        case["ops"] = [og.op() for _ in range(rng.randrange(2, 6))]
        case["wrap"] = {}
        for name, d in case["docs_from"].items():
            if d["fmt"] == "dict" and rng.random() < 0.15:
                case["wrap"][name] = rng.choice(["collections.OrderedDict", "types.MappingProxyType"])
        if rng.random() < 0.5:
            case["warm"] = [dict(op) for op in case["ops"]]
        return case

    def run_case(self, case, variant, st):
        world = self.load(case)
        attach_docs(world, case)
        for name, w in case.get("wrap", {}).items():
            d = world.docs.get(name)
            if isinstance(d, dict):
                import collections
                import types

                f = {"collections.OrderedDict": collections.OrderedDict, "types.MappingProxyType": types.MappingProxyType}
                world.docs[name] = world.ns[name] = f[w](d)
        if case.get("warm"):
            for op in case["warm"]:
                world.run_op(op)
        variants = [variant] if variant is not None else self.make_variants(world, case)
        cost = 0
        for v in variants:
            if cost > self.case_cost:
                break
            res = in_child(self.run_variant, world, case, v)
            cost += res["steps"] * (res["watched"] + 15)
            st.add("runs")
            st.add("steps", res["steps"])
            st.add("objects_watched", res["watched"])
            st.add("ops_ok", sum(1 for o in res["outs"] if o[0] == "ok"))
            st.add("ops_failed", sum(1 for o in res["outs"] if o[0] == "err"))
            for k in res["fired"]:
                st.add("fault_" + k)
            if res["watched"] and res["steps"]:
                st.seen("watched_runs", h([case["seed"], v["faults"]]))
            if res["verdict"] == "harness":
                raise engine.HarnessError(res["detail"])
            if res["bad"]:
                return {"what": res["bad"], "case": case, "variant": v}
        return None

    def make_variants(self, world, case):
        rng = random.Random(case["seed"] + ":faults")
        yield {"faults": []}
        for i in range(self.variants_per_case - 1):
            k = rng.randrange(len(case["ops"]))
            kind = rng.choice(["int", "int", "mem", "rec", "hook"])
            if kind == "hook":
                hooks = in_child(F.count_hooks, world, case, case["ops"], k)
                if not hooks:
                    kind = "int"
                else:
                    yield {"faults": [{"kind": "hook", "tid": 0, "op": k, "at": rng.randrange(1, len(hooks) + 1),
                                       "exc": rng.choice(list(F.USER_ERRORS))}]}
                    continue
            n, sites, _ = in_child(F.count_points, world, case, case["ops"], k, kind)
            if not n:
                continue
            at = F.pick_points(rng, n, sites, 1)[0]
            exc = {"int": "KeyboardInterrupt", "mem": "MemoryError", "rec": "RecursionError"}[kind]
            yield {"faults": [{"kind": kind, "tid": 0, "op": k, "at": at, "exc": exc}]}

    def run_variant(self, world, case, v):
        named = [(f"argument {k}", x) for k, x in list(world.shared.items()) + list(world.docs.items())]
        named += [("a declared default", d) for d in defaults_of(world)]
        watch = Watch(named)
        deep = {k: freeze(canon(x)) for k, x in named if k != "a declared default"}
        bad = []
        cur = [None]

        def look(sim, where):
            c = watch.changed()
            if c and not bad:
                bad.append(f"{c[0]} is modified {where} during {cut(cur[0], 300)} (faults {v['faults']}): "
                           f"{cut(canon(c[1]), 200)}")

        def observer(sim, tid, code, where):
            if not bad:
                look(sim, f"at {code.co_qualname if code is not None else 'sync'}:{where}")

        eng = [F.to_fault(f) for f in v["faults"] if f["kind"] in F.KINDS]
        hooks = [F.HookFault(f) for f in v["faults"] if f["kind"] == "hook"]
        befores = [x.before(world) for x in hooks]

        def before_op(sim, i, j, op):
            cur[0] = op
            for b in befores:
                b(sim, i, j, op)

        def after_op(sim, i, j, op, r, obj):
            if not bad:
                look(sim, "at the end")

        c = dict(case, threads=[case["ops"]])
        sim, outs = W.run_threads(world, c, engine.Solo(), faults=eng, observer=observer, before_op=before_op,
                                  after_op=after_op)
        world.quiet += 1
        if not bad:
            for k, x in named:
                if k in deep and freeze(canon(x)) != deep[k]:
                    bad.append(f"{k} differs after the run of {cut(case['ops'], 300)}")
                    break
        return {"bad": bad[0] if bad else None, "steps": sim.step, "watched": len(watch.items), "outs": outs[0],
                "verdict": sim.verdict, "detail": sim.detail,
                "fired": [ekind(x.exc) for x in eng if x.fired] + ["hook" for x in hooks if x.fired]}

    def shrink(self, case, variant):
        import copy

        for j in reversed(range(len(case["ops"]))):
            if any(f["op"] == j for f in variant["faults"]):
                continue
            c = copy.deepcopy(case)
            del c["ops"][j]
            v = copy.deepcopy(variant)
            for f in v["faults"]:
                f["op"] -= f["op"] > j
            yield c, v
        if variant["faults"]:
            yield case, {"faults": []}
        yield from common.generic_shrink(case, variant)
