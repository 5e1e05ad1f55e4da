"""C11: objects produced by different calls share no mutable state."""
from __future__ import annotations

import random

from .. import common, engine, gen, world as W
from ..canon import canon
from ..common import DiffProp, Skip, cut, h
from ..forkrun import in_child
from ..ops import OpGen, attach_docs, targets
from ..reach import defaults_of, spoil, walk
from .first_use import parts


class Alias(DiffProp):
    id = "C11"
    quick_cases = 4000
    schedules = 8
    nontrivial_key = "result_sets"
    technique = ("deterministic simulation: seeded thread schedules, identities of all results compared, results "
                 "mutated and calls repeated")
    rule = (
        "a case is a module and 1-3 threads of calls; after a seeded schedule the mutable objects reachable from every "
        "two results are compared by identity, then all of them are overwritten and every call is repeated and must "
        "give what it gives in a pristine process; non-trivial when at least two results hold mutable objects of their "
        "own, distinct by case and schedule"
    )
    level_note = (
        "Seeded search over calls, formats, per-call options and schedules. What the caller passed in and declared "
        "plain defaults (and what they hold) may be shared and are neither compared nor overwritten."
    )
    assumptions = ["user callbacks and default factories return new objects"]

    def make(self, rng, tier):
        s = gen.Schema(rng)
        s.mutdefaults = rng.choice([0.0, 0.0, 0.2])
        classes = []
        for i in range(rng.randrange(1, 5)):
            base = rng.choice(classes) if classes and rng.random() < 0.15 else None
            plain = base.plain if base else rng.random() < 0.4
            classes.append(s.new_class(plain=plain, pool=classes[:], base=base,
                                       opts=None if rng.random() < 0.6 else []))
        case = {"modules": [{"name": "wl_m", "parts": parts(s)}], "shared": {}, "docs_from": {}, "threads": [],
                "fine": rng.random() < 0.2, "rng": rng.randrange(1 << 30)}
        tg = targets(rng, s, classes)
        focus = rng.sample(tg, min(len(tg), rng.randrange(1, 3)))
        refs = any(f[1].refs for c in classes for f in c.all_fields())
        safe = all(not c.plain for c in classes)
        og = OpGen(rng, case, focus, bad=0.1 if safe else 0.0, share=0.7, weights=(5, 6, 1))
        for t in range(rng.choice([1, 2, 2, 3])):
            ops = [og.op() for _ in range(rng.randrange(1, 4))]
            for op in list(ops):
                if rng.random() < 0.5:
                    ops.append(op)
            if t and rng.random() < 0.6:
                ops.append(rng.choice(case["threads"][0]))
            case["threads"].append(ops)
        if rng.random() < 0.4:
            case["warm"] = [op for ops in case["threads"] for op in ops]
        return case

    def run_case(self, case, variant, st):
        world = self.load(case)
        attach_docs(world, case)
        base, total = self.baselines(world, case, st)
        for op in case.get("warm", []):
            world.run_op(op)
        variants = [variant] if variant is not None else self.make_variants(case, total)
        for v in variants:
            res = in_child(self.run_variant, world, case, v)
            self.count(st, case, v, res)
            st.add("mutable_results", res["own"])
            if res["own"] > 1:
                st.seen("result_sets", h([case["seed"], res["trace"]]))
            bad = res["shared"] or self.judge(case, v, base, res)
            if bad:
                return {"what": bad, "case": case, "variant": common.pin(v, res)}
            for k, (op, o) in enumerate(res["again"]):
                b = base[tuple(op)]
                if o != b:
                    return {"what": f"after overwriting all results, {cut(case['threads'][op[0]][op[1]], 300)} gives "
                                    f"{cut(o)}; before it gave {cut(b)}",
                            "case": case, "variant": common.pin(v, res)}
        return None

    def make_variants(self, case, total):
        vs = super().make_variants(case, total)
        if len(case["threads"]) == 1:
            return list(vs)[:2]
        return vs

    def run_variant(self, world, case, v):
        rng = random.Random(f"{v['seed']}")
        strat = engine.make_strategy(v["sched"], rng, v.get("length", 1000), len(case["threads"]), world.sites)
        args = walk(list(world.shared.values()) + list(world.docs.values()) + defaults_of(world))
        sim, outs = W.run_threads(world, case, strat)
        res = common.sim_result(sim, outs)
        res["shared"] = None
        res["own"] = 0
        res["again"] = []
        if sim.verdict:
            return res
        world.quiet += 1
        allowed = walk(list(world.shared.values()) + list(world.docs.values()) + defaults_of(world))
        allowed.update(args)
        owner = {}
        own = []
        for t, rs in enumerate(sim.raws):
            for j, r in enumerate(rs):
                if isinstance(r, tuple) and r and isinstance(r[0], W.RawCanon):
                    r = r[1]
                if outs[t][j][0] != "ok":
                    continue
                op = case["threads"][t][j]
                # an inline value is an argument too, and belongs to its own call only
                mine = walk([r], skip=allowed)
                res["own"] += bool(mine)
                for i, o in mine.items():
                    if i in owner and res["shared"] is None:
                        t2, j2 = owner[i]
                        res["shared"] = (f"{cut(op, 300)} (thread {t}) and {cut(case['threads'][t2][j2], 300)} (thread "
                                         f"{t2}) both return the same object {cut(canon(o), 200)}")
                    owner[i] = (t, j)
                own.append(mine)
        for m in own:
            spoil(m.values())
        world.quiet -= 1
        seq = [(t, j) for t in range(len(outs)) for j in range(len(outs[t]))]
        r = common.solo(world, case, [case["threads"][t][j] for t, j in seq])
        res["again"] = list(zip(seq, r["outs"]))
        return res
