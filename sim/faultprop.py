"""Base of the fault-injection properties: an operation is cut short, then everything else goes on."""
from __future__ import annotations

import copy
import random

from . import common, engine, faults as F, world as W
from .canon import canon, freeze
from .common import Prop, Skip, cut, h
from .forkrun import in_child
from .ops import attach_docs


class FaultProp(Prop):
    """
    case: P (the operation that is cut short), rest (what the same thread does afterwards),
    other (operations of a second thread, while P is cut short), warm (calls that prepare classes).
    variant: faults (one per attempt of P), sched, seed.
    """

    level = "fault_enumeration"
    technique = "deterministic simulation with fault injection: seeded fault positions and schedules, differential"
    variants_per_case = 12
    kinds = {"int": 5, "mem": 3, "rec": 2, "hook": 2}
    nontrivial_key = "faulted_runs"
    double = 0.2
    check_rest = True
    check_args = False
    check_exc = False
    user_errors = list(F.USER_ERRORS)

    # -- baseline -----------------------------------------------------------------------------
    def run_case(self, case, variant, st):
        world = self.load(case)
        attach_docs(world, case)
        for op in case.get("warm", []):
            world.run_op(op)
        base = self.base(world, case)
        st.add("baseline_ops", len(base["rest"]))
        st.add("baseline_ok", sum(1 for o in base["rest"] if o[0] == "ok"))
        variants = [variant] if variant is not None else self.make_variants(world, case, base, st)
        for v in variants:
            res = in_child(self.run_variant, world, case, v)
            self.count(st, case, v, res)
            bad = self.judge(case, v, base, res)
            if bad:
                v = dict(v)
                if res.get("switches") is not None:
                    v = common.pin(v, res)
                return {"what": bad, "case": case, "variant": v}
        return None

    def base(self, world, case):
        r = common.alone(world, case, case["rest"])
        if r["verdict"]:
            raise Skip(f"baseline {r['verdict']}: {r['detail']}")
        other = []
        total = r["steps"]
        for op in case.get("other", []):
            o = common.alone(world, case, [op])
            if o["verdict"]:
                raise Skip("baseline " + o["verdict"])
            other.append(o["outs"][0])
            total += o["steps"]
        bad = [o for o in r["outs"] + other if o[0] == "bad"]
        if bad:
            raise Skip("bad op: " + str(bad[0])[:100])
        return {"rest": r["outs"], "other": other, "total": total}

    # -- variants -----------------------------------------------------------------------------
    def make_variants(self, world, case, base, st):
        rng = random.Random(case["seed"] + ":faults")
        if case.get("late"):
            yield {"faults": [{"kind": "late", "tid": 0, "op": 0}], "seed": case["seed"] + ":late", "sched": {"kind": "solo"}}
            return
        pts = {}
        for kind in ("int", "mem", "rec"):
            if self.kinds.get(kind):
                n, sites, out = in_child(F.count_points, world, case, [case["P"]], 0, kind)
                pts[kind] = F.pick_points(rng, n, sites, self.variants_per_case)
                if out[0] == "bad":
                    raise Skip("bad op: " + str(out)[:100])
        hooks = in_child(F.count_hooks, world, case, [case["P"]], 0)
        st.add("hook_points", len(hooks))
        ks = [k for k in self.kinds if (k != "hook" or hooks) and (k not in pts or pts[k])]
        if not ks:
            return
        for i in range(self.variants_per_case):
            fs = []
            attempts = 1
            while attempts < 6 and rng.random() < self.double:
                attempts += 1
            for _ in range(attempts):
                kind = rng.choices(ks, [self.kinds[k] for k in ks])[0]
                f = {"kind": kind, "tid": 0, "op": len(fs)}
                if kind == "int":
                    f["exc"] = rng.choice(list(F.SIGNALS))
                    f["at"] = rng.choice(pts["int"])
                elif kind in ("mem", "rec"):
                    f["exc"] = "MemoryError" if kind == "mem" else "RecursionError"
                    f["at"] = rng.choice(pts[kind])
                elif kind == "hook":
                    f["exc"] = rng.choice(self.user_errors if rng.random() < 0.75 and not case.get("signals_only") else list(F.SIGNALS))
                    f["at"] = rng.randrange(1, len(hooks) + 1)
                fs.append(f)
            v = {"faults": fs, "seed": f"{case['seed']}:{i}", "length": base["total"], "sched": {"kind": "solo"}}
            if case.get("other") and rng.random() < 0.4:
                v["sched"] = {"kind": rng.choice(common.SCHED_KINDS)}
            yield v

    # -- one run, in a forked child -----------------------------------------------------------
    def run_variant(self, world, case, v):
        fs = v["faults"]
        before_args = self.args_print(world)
        ops = [(f, case["P"]) for f in fs]
        threads = [[op for _, op in ops] + case["rest"]]
        if v["sched"]["kind"] != "solo":
            threads.append(case["other"])
        c = dict(case, threads=threads)
        eng = []
        hooks = []
        for j, (f, _) in enumerate(ops):
            d = dict(f, op=j)
            if f["kind"] in F.KINDS:
                eng.append(F.to_fault(d))
            elif f["kind"] == "hook":
                hooks.append(F.HookFault(d))
        befores = [hf.before(world) for hf in hooks]

        def before_op(sim, i, j, op):
            for b in befores:
                b(sim, i, j, op)

        rng = random.Random(v["seed"])
        strat = engine.make_strategy(v["sched"], rng, v.get("length", 1000), len(threads), world.sites)
        sim, outs = W.run_threads(world, c, strat, faults=eng, before_op=before_op)
        res = common.sim_result(sim, outs)
        res["fired"] = [[ekind(x.exc), list(x.fired)] for x in eng if x.fired]
        res["fired"] += [["hook", x.fired] for x in hooks if x.fired]
        if fs and fs[0]["kind"] == "late":
            res["fired"].append(["late", "unresolved name"])
        res["attempts"] = len(ops)
        # identity of what reached the caller of each attempt
        idents = []
        for f in sim.faults:
            if f.fired and len(outs[0]) > f.op:
                idents.append([f.op, sim.raws[0][f.op] is f.exc, ekind(f.exc), list(f.fired)])
        for hf in hooks:
            if hf.fired and len(outs[0]) > hf.d["op"]:
                j = hf.d["op"]
                same = sim.raws[0][j] is hf.exc
                kind = "signal" if not isinstance(hf.exc, Exception) else "user"
                idents.append([j, same, kind, [hf.fired, hf.d["exc"], hf.by_lib]])
        res["idents"] = idents
        if self.check_args:
            after = self.args_print(world)
            res["args"] = [k for k in before_args if before_args[k] != after[k]]
        return res

    def args_print(self, world):
        if not self.check_args:
            return None
        return {k: freeze(canon(v)) for k, v in list(world.shared.items()) + list(world.docs.items())}

    # -- accounting ---------------------------------------------------------------------------
    def count(self, st, case, v, res):
        st.add("runs")
        st.add("steps", res["steps"])
        st.add("switches", res["nswitch"])
        for kind, site in res["fired"]:
            st.add("fault_" + kind)
            st.seen("fault_sites", h([kind, site]))
            if isinstance(site, list):
                st.add("at_" + site[3])
        if res["fired"]:
            st.seen("faulted_runs", h([case["seed"], v["faults"], res["trace"]]))
        else:
            st.add("fault_not_reached")

    # -- verdict ------------------------------------------------------------------------------
    def judge(self, case, v, base, res):
        if res["verdict"] == "harness":
            raise engine.HarnessError(res["detail"])
        if res["verdict"]:
            return f"{res['verdict']} after {v['faults']}: {res['detail']}"
        k = res["attempts"]
        what = f"after {fdesc(v, res)} in {cut(case['P'], 200)}: "
        if self.check_exc:
            bad = self.judge_exc(case, v, base, res)
            if bad:
                return what + bad
        if self.check_args and res["args"]:
            return what + f"the argument(s) {res['args']} were modified"
        if self.check_rest:
            for j, b in enumerate(base["rest"]):
                o = res["outs"][0][k + j]
                if o != b:
                    return what + f"later operation {j} {cut(case['rest'][j], 300)} gives {cut(o)}; undisturbed it gives {cut(b)}"
            if len(res["outs"]) > 1:
                for j, b in enumerate(base["other"]):
                    o = res["outs"][1][j]
                    if o != b:
                        return what + f"operation {cut(case['other'][j], 300)} of another thread gives {cut(o)}; alone it gives {cut(b)}"
        return None

    def judge_exc(self, case, v, base, res):
        return None

    # -- shrinking ----------------------------------------------------------------------------
    def shrink(self, case, variant):
        if len(variant["faults"]) > 1:
            for i in range(len(variant["faults"])):
                v = copy.deepcopy(variant)
                del v["faults"][i]
                for n, f in enumerate(v["faults"]):
                    f["op"] = n
                yield case, v
        if variant["sched"]["kind"] != "solo":
            v = copy.deepcopy(variant)
            v["sched"] = {"kind": "solo"}
            yield case, v
        for key in ("rest", "other", "warm"):
            for j in reversed(range(len(case.get(key, [])))):
                c = copy.deepcopy(case)
                del c[key][j]
                yield c, variant
        c0 = dict(case)
        yield from common.generic_shrink({**c0, "threads": []}, variant)


def ekind(e):
    return "mem" if isinstance(e, MemoryError) else "rec" if isinstance(e, RecursionError) else "int"


def fdesc(v, res):
    return "; ".join(f"{f['kind']}@{f.get('at', '')} {f.get('exc', '')}" for f in v["faults"]) + \
        " fired at " + str([x[1] for x in res["fired"]])
