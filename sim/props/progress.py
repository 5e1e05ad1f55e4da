"""C12: calls always finish."""
from __future__ import annotations

import copy
import random

from .. import common, engine, faults as F, gen, world as W
from ..common import DiffProp, Skip, cut, h
from ..forkrun import in_child
from ..ops import OpGen, attach_docs, targets
from .first_use import parts

REG = [{"k": "reg", "w": "se", "e": "CodecUnused()"}, {"k": "reg", "w": "de", "e": "CodecUnusedDe()"}]


class Progress(DiffProp):
    id = "C12"
    quick_cases = 4000
    schedules = 12
    baseline_mode = "thread"
    technique = ("deterministic simulation with fault injection: waiting and re-entrant user callbacks, interrupted "
                 "neighbours, seeded schedules; deadlock and step bound")
    nontrivial_key = "callback_runs"
    rule = (
        "a case is 1-3 threads of calls, definitions and registrations; in each run chosen user callbacks of calls on "
        "prepared classes wait for another thread to finish, or callbacks (also annotation callbacks during "
        "preparation) call, define or register, or an operation of a neighbour is interrupted at a counted point; "
        "non-trivial when such a callback or interrupt happened, distinct by case, plan and schedule"
    )
    level_note = (
        "Seeded search: every thread must finish within a bounded number of steps (20 times what its operations take "
        "alone, plus room for preparing every class again after a registration), and "
        "with the results they give alone. Deadlocks between simulated locks and waits are detected exactly; a wait "
        "inside third-party code would appear as a wall-clock timeout."
    )
    assumptions = ["third-party libraries run without preemption and do not block",
                   "only callbacks inside calls on prepared classes wait for other threads"]

    def make(self, rng, tier):
        s = gen.Schema(rng)
        s.hooky = 2.0
        mode = rng.choices(["wait", "reent", "prep"], [4, 3, 2])[0]
        s.annhooks = mode == "prep"
        classes = []
        fresh = []
        if mode == "prep":
            fresh.append(s.new_class(plain=True, nfields=rng.randrange(3, 6), callbacks=True))
        else:
            for i in range(rng.randrange(1, 4)):
                base = rng.choice(classes) if classes and rng.random() < 0.1 else None
                plain = base.plain if base else rng.random() < 0.3
                classes.append(s.new_class(plain=plain, pool=classes[:], base=base,
                                           opts=None if rng.random() < 0.7 else [], hooks=True))
        s.annhooks = False
        for i in range(rng.randrange(1, 4)):
            fresh.append(s.new_class(plain=True, pool=([] if mode == "prep" else classes + fresh),
                                     name=f"F{i}", codecs=rng.random() < 0.6))
        case = {"modules": [{"name": "wl_m", "parts": parts(s)}], "shared": {}, "docs_from": {}, "threads": [],
                "fine": rng.random() < 0.2, "rng": rng.randrange(1 << 30), "mode": mode}
        fut = "from __future__ import annotations\n" if s.future else ""
        s.unions = s.unions and mode != "prep"
        ftg = targets(rng, s, fresh)
        ptg = targets(rng, s, classes) if classes else []
        if mode == "wait" and rng.random() < 0.2:
            ptg.append((gen.HPATH, rng.choice([None, "Path", "pathlib.PosixPath"]), False))
            ptg = ptg[-2:]
        fog = OpGen(rng, case, ftg, bad=0.0)
        pog = OpGen(rng, case, ptg or ftg, bad=0.2 if classes and not any(c.plain for c in classes) else 0.0)

        def define(k):
            d = s.new_class(plain=rng.random() < 0.15, pool=(fresh[1:] if mode == "prep" else classes + fresh),
                            name=f"D{k}", codecs=rng.random() < 0.5)
            s.classes.remove(d)
            ops = [{"k": "exec", "mod": "wl_m", "src": fut + d.source() + "\n"}]
            if rng.random() < 0.7:
                ty = gen.wrap_target(rng, d.ty())
                ops.append({"k": "rt", "fmt": gen.pick_fmt(rng), "v": ty.val(rng, 2), "c": None, "t": ty.src})
            return ops

        nog = OpGen(rng, case, targets(rng, s, fresh[1:] or fresh), bad=0.0)

        def anything(k):
            x = rng.random()
            if mode == "prep" and k[0] == "n" and x < 0.65:
                return [nog.op()]
            if x < 0.35:
                return [fog.op()]
            if x < 0.65:
                return [pog.op()]
            if x < 0.85:
                return define(k)
            return [rng.choice(REG)]

        if mode == "prep":
            first = fresh[0].ty()
            main = [fog.op((first, None, False)) for _ in range(rng.randrange(1, 3))]
        else:
            main = [pog.op() for _ in range(rng.randrange(1, 3))]
        case["threads"].append(main)
        for t in range(rng.choice([1, 1, 2]) if mode == "wait" else rng.choice([0, 1, 1, 2])):
            ops = []
            for k in range(rng.randrange(1, 3)):
                ops += anything(f"{t}_{k}")
            case["threads"].append(ops)
        case["nested"] = [anything("n0"), anything("n1")]
        if mode == "prep" and rng.random() < 0.5:
            # a class used by a callback of its own preparation: only has to finish
            case["nested"] = [[fog.op((fresh[0].ty(), None, False))] for _ in range(2)]
            case["own"] = True
        if mode != "prep":
            case["warm"] = list(main)
            if len(case["threads"]) > 2 and rng.random() < 0.5:
                case["threads"][1] = [pog.op() for _ in range(rng.randrange(1, 3))]
                case["warm"] += case["threads"][1]
        return case

    def run_case(self, case, variant, st):
        world = self.load(case)
        attach_docs(world, case)
        for op in case.get("warm", []):
            world.run_op(op)
        base, total = self.baselines(world, case, st)
        for i, ops in enumerate(case["nested"]):
            r = common.alone(world, case, ops)
            self.solo_ok(r)
            if any(o[0] == "bad" for o in r["outs"]):
                raise Skip("bad op: " + str(r["outs"])[:100])
            base[("n", i)] = r["outs"]
            total += r["steps"]
        if variant is not None:
            variants = [variant]
        else:
            variants = self.plans(world, case, total)
        for v in variants:
            res = in_child(self.run_variant, world, case, v)
            self.count(st, case, v, res)
            for k in res["did"]:
                st.add("fault_" + k)
            if res["did"]:
                st.seen("callback_runs", h([case["seed"], v["plan"], v["faults"], res["trace"]]))
            bad = self.judge(case, v, base, res)
            if bad:
                return {"what": bad, "case": case, "variant": common.pin(v, res)}
        return None

    def plans(self, world, case, total):
        rng = random.Random(case["seed"] + ":plan")
        nt = len(case["threads"])
        warm = len(case.get("warm", []))
        hooks = {}
        for t, ops in enumerate(case["threads"]):
            for j in range(len(ops)):
                if t == 0 or (warm > len(case["threads"][0]) and t == 1):
                    hooks[(t, j)] = len(in_child(F.count_hooks, world, case, ops[: j + 1], j))
        have = [k for k, n in hooks.items() if n]
        points = {}
        for i in range(self.schedules):
            plan = []
            faults = []
            for k in have:
                if len(plan) and rng.random() < 0.5:
                    continue
                n = rng.randrange(1, hooks[k] + 1)
                kind = {"wait": "wait", "reent": "nested", "prep": "nested"}[case["mode"]]
                if case["mode"] == "wait" and rng.random() < 0.2:
                    kind = "nested"
                if kind == "wait":
                    if k[0] + 1 < nt:
                        plan.append([k[0], k[1], n, "wait", k[0] + 1])
                else:
                    plan.append([k[0], k[1], n, "nested", rng.randrange(len(case["nested"]))])
            if nt > 1 and rng.random() < 0.4:
                t = nt - 1
                j = rng.randrange(len(case["threads"][t]))
                if (t, j) not in points:
                    n, sites, _ = in_child(F.count_points, world, case, case["threads"][t], j, "int")
                    points[(t, j)] = (n, sites)
                n, sites = points[(t, j)]
                if n:
                    faults.append({"kind": "int", "tid": t, "op": j, "at": F.pick_points(rng, n, sites, 1)[0],
                                   "exc": "KeyboardInterrupt"})
            if not plan and not faults and i > 2:
                continue
            sched = rng.choice(common.SCHED_KINDS) if nt > 1 else "solo"
            yield {"seed": f"{case['seed']}:{i}", "sched": {"kind": sched}, "length": total, "plan": plan,
                   "faults": faults, "limit": 20 * total + (1_000_000 if case["fine"] else 300_000)}

    def run_variant(self, world, case, v):
        did = []
        nested = []

        def action(p):
            def f(name):
                did.append(p[3])
                if p[3] == "wait":
                    world.wait_thread(p[4])
                else:
                    nested.append([p[4], [world.nested(op) for op in case["nested"][p[4]]]])

            return f

        acts = [(p, action(p)) for p in v["plan"]]

        def before_op(sim, i, j, op):
            for p, a in acts:
                if p[0] == i:
                    if p[1] == j:
                        world.hook_plan[(i, p[2])] = a
                    elif world.hook_plan.get((i, p[2])) is a:
                        del world.hook_plan[(i, p[2])]

        eng = [F.to_fault(f) for f in v["faults"]]
        c = dict(case, step_limit=v["limit"])
        rng = random.Random(v["seed"])
        strat = engine.make_strategy(v["sched"], rng, v.get("length", 1000), len(case["threads"]), world.sites)
        sim, outs = W.run_threads(world, c, strat, faults=eng, before_op=before_op)
        res = common.sim_result(sim, outs)
        res["nested"] = nested
        res["did"] = did + ["int" for f in eng if f.fired]
        res["cut"] = [[f.tid, f.op] for f in eng if f.fired]
        res["fired"] = []
        return res

    def judge(self, case, v, base, res):
        if res["verdict"] == "harness":
            raise engine.HarnessError(res["detail"])
        if res["verdict"]:
            return f"{res['verdict']} with callbacks {v['plan']} and interrupts {v['faults']}: {res['detail']}"
        what = f"with callbacks {v['plan']} and interrupts {v['faults']}: "
        for i, outs in [] if case.get("own") else res["nested"]:
            if outs != base[("n", i)]:
                return what + (f"the call {cut(case['nested'][i], 300)} made by a callback gives {cut(outs)}; "
                               f"alone it gives {cut(base[('n', i)])}")
        for t, outs in enumerate(res["outs"]):
            for j, o in enumerate(outs):
                if case.get("own"):
                    continue
                if any(t == ct and j >= cj for ct, cj in res["cut"]):
                    continue
                if o != base[(t, j)]:
                    return what + (f"thread {t} op {j} {cut(case['threads'][t][j], 300)}: got {cut(o)}; alone it gives "
                                   f"{cut(base[(t, j)])}")
        return None

    def shrink(self, case, variant):
        for key in ("plan", "faults"):
            for i in range(len(variant[key])):
                v = copy.deepcopy(variant)
                del v[key][i]
                yield case, v
        sw = variant["sched"]
        if sw["kind"] == "replay":
            s = sw["switches"]
            chunk = len(s)
            while chunk >= 1:
                for i in range(0, len(s), chunk):
                    v = copy.deepcopy(variant)
                    v["sched"]["switches"] = s[:i] + s[i + chunk:]
                    yield case, v
                chunk //= 2
        for mi, m in enumerate(case["modules"]):
            for p in reversed(range(1, len(m["parts"]))):
                c = copy.deepcopy(case)
                del c["modules"][mi]["parts"][p]
                yield c, variant
