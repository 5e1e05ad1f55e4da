"""C04: concurrent calls on prepared classes."""
from __future__ import annotations

from .. import gen
from ..common import DiffProp, pin
from ..forkrun import in_child
from ..ops import OpGen, attach_docs, targets
from .first_use import parts


def prepare_world(world, case):
    """Run the warm-up calls in this process (not simulated); everything forked later starts from here."""
    for op in case.get("warm", []):
        world.run_op(op)


class ConcurrentCalls(DiffProp):
    id = "C04"
    quick_cases = 4000
    schedules = 24
    rule = (
        "a case is a generated module of decorated and plain classes, prepared by warm-up calls, and 2-4 threads of "
        "calls (good and bad documents, every format, per-call options, shared values and documents) on them, run "
        "under several seeded schedules; a run is non-trivial when at least one thread switch happened inside the "
        "library, distinct by the hash of its sequence of (thread, code site) switches"
    )
    level_note = (
        "Seeded search over thread interleavings of calls on prepared classes: each call must give what it gives "
        "alone in a fork of the same prepared process. Preemption at line or bytecode boundaries of pyserde, "
        "generated and user code; third-party code is atomic."
    )
    assumptions = ["third-party libraries run without preemption"]

    def make(self, rng, tier):
        s = gen.Schema(rng)
        classes = []
        for i in range(rng.randrange(1, 5)):
            base = rng.choice(classes) if classes and rng.random() < 0.1 else None
            plain = base.plain if base else rng.random() < 0.3
            classes.append(s.new_class(plain=plain, pool=classes[:], base=base,
                                       opts=None if rng.random() < 0.7 else [], hooks=True))
        case = {"modules": [{"name": "wl_m", "parts": parts(s)}], "shared": {}, "docs_from": {}, "threads": [],
                "fine": rng.random() < 0.5, "rng": rng.randrange(1 << 30)}
        tg = targets(rng, s, classes)
        case["warm"] = []
        for ty, c, need in tg:
            if ty.kind == "cls" or rng.random() < 0.6:
                case["warm"].append({"k": "rt", "fmt": "dict", "v": ty.val(rng, 2), "c": c if need else None,
                                     "t": c or ty.src})
        focus = rng.sample(tg, min(len(tg), rng.randrange(1, 4)))
        og = OpGen(rng, case, focus, bad=0.3)
        for t in range(rng.choices([2, 3, 4], [6, 3, 1])[0]):
            case["threads"].append([og.op() for _ in range(rng.choices([1, 2, 3], [3, 3, 1])[0])])
        return case

    def run_case(self, case, variant, st):
        world = self.load(case)
        attach_docs(world, case)
        prepare_world(world, case)
        base, total = self.baselines(world, case, st)
        variants = [variant] if variant is not None else self.make_variants(case, total)
        for v in variants:
            res = in_child(self.run_variant, world, case, v)
            self.count(st, case, v, res)
            bad = self.judge(case, v, base, res)
            if bad:
                return {"what": bad, "case": case, "variant": pin(v, res)}
        return None
