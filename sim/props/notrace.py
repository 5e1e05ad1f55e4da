"""C07: a call that fails part-way leaves no trace."""
from __future__ import annotations

from .. import gen
from ..faultprop import FaultProp
from ..ops import OpGen, targets
from .first_use import parts


class NoTrace(FaultProp):
    id = "C07"
    quick_cases = 4000
    variants_per_case = 16
    check_args = True
    double = 0.5
    rule = (
        "a case is a call on prepared classes that is cut short one to six times (exception at a counted point, failing "
        "user callback, lack of stack, bad document), then repeated and followed by other calls, with a second thread "
        "calling meanwhile in part of the runs; non-trivial when the fault fired, distinct by case, position, schedule"
    )
    level_note = (
        "Seeded fault positions inside calls on prepared classes; the repeated call, later calls and calls of another "
        "thread must equal an undisturbed process, and every shared value and document must be unchanged."
    )
    assumptions = ["exceptions arrive where CPython delivers them: function entry, backward jump, return of a C call; "
                   "memory errors in place of a C call made by pyserde, generated or user code"]

    def make(self, rng, tier):
        s = gen.Schema(rng)
        s.hooky = rng.choice([1.0, 1.0, 2.0])
        classes = []
        for i in range(rng.randrange(1, 5)):
            base = rng.choice(classes) if classes and rng.random() < 0.1 else None
            plain = base.plain if base else rng.random() < 0.25
            classes.append(s.new_class(plain=plain, pool=classes[:], base=base,
                                       opts=None if rng.random() < 0.75 else [], hooks=True))
        case = {"modules": [{"name": "wl_m", "parts": parts(s)}], "shared": {}, "docs_from": {}, "threads": [],
                "fine": False, "rng": rng.randrange(1 << 30)}
        tg = targets(rng, s, classes)
        case["warm"] = []
        for ty, c, need in tg:
            case["warm"].append({"k": "rt", "fmt": "dict", "v": ty.val(rng, 2), "c": c if need else None,
                                 "t": c or ty.src})
        focus = rng.sample(tg, min(len(tg), rng.randrange(1, 4)))
        og = OpGen(rng, case, focus, bad=0.0, share=0.8)
        case["P"] = og.op()
        og.bad = 0.25
        case["rest"] = [case["P"]] + [og.op() for _ in range(rng.randrange(1, 4))]
        if rng.random() < 0.3:
            case["P"] = og.op()
        case["other"] = [og.op() for _ in range(rng.randrange(1, 3))]
        return case
