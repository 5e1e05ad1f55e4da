"""C08: interrupts and user errors always reach the caller."""
from __future__ import annotations

from .. import gen
from ..common import cut
from ..faultprop import FaultProp
from ..ops import OpGen, targets
from .first_use import parts


class Signals(FaultProp):
    id = "C08"
    quick_cases = 4000
    variants_per_case = 20
    kinds = {"int": 6, "hook": 5}
    check_rest = False
    check_exc = True
    double = 0.05
    rule = (
        "a case is a call (prepared or first) or a class definition in which a signal is raised at a counted point, "
        "or the n-th user callback raises a signal or an error; non-trivial when it fired, distinct by case, "
        "position, exception and schedule"
    )
    level_note = (
        "The object that reaches the caller is compared by identity with the object raised. Seeded positions over "
        "function entries, backward jumps and C-call returns in pyserde, generated and user code, and over every "
        "invocation of every user callback of the operation."
    )
    assumptions = ["signals arrive where CPython delivers them: function entry, backward jump, return of a C call"]

    def make(self, rng, tier):
        s = gen.Schema(rng)
        s.unions = rng.random() < 0.4
        s.hooky = rng.choice([1.0, 2.0, 2.4])
        mode = rng.choices(["warm", "first", "define"], [5, 3, 2])[0]
        classes = []
        plain_only = mode != "warm"
        for i in range(rng.randrange(1, 5)):
            base = rng.choice(classes) if classes and rng.random() < 0.1 else None
            plain = base.plain if base else plain_only or rng.random() < 0.25
            classes.append(s.new_class(plain=plain, pool=classes[:], base=base,
                                       opts=None if rng.random() < 0.75 else [], hooks=True))
        case = {"modules": [], "shared": {}, "docs_from": {}, "threads": [], "signals_only": s.unions,
                "fine": False, "rng": rng.randrange(1 << 30), "rest": [], "mode": mode}
        d = None
        if mode == "define":
            d = s.new_class(plain=False, pool=classes[:], name="D0", hooks=True)
            s.classes.remove(d)
        case["modules"] = [{"name": "wl_m", "parts": parts(s)}]
        tg = targets(rng, s, classes)
        og = OpGen(rng, case, tg, bad=0.0)
        if mode == "define":
            fut = "from __future__ import annotations\n" if s.future else ""
            case["P"] = {"k": "exec", "mod": "wl_m", "src": fut + d.source() + "\n"}
        else:
            focus = rng.sample(tg, min(len(tg), 2))
            og.types = focus
            og.bad = 0.05
            case["P"] = og.op()
            if mode == "warm":
                case["warm"] = [{"k": "rt", "fmt": "dict", "v": ty.val(rng, 2), "c": c if need else None,
                                 "t": c or ty.src} for ty, c, need in focus]
        case["other"] = [og.op() for _ in range(rng.randrange(1, 3))]
        return case

    def judge_exc(self, case, v, base, res):
        for j, same, kind, site in res["idents"]:
            o = res["outs"][0][j]
            if kind in ("int", "signal"):
                if not same:
                    return f"the signal raised at {site} did not reach the caller; the call gives {cut(o)}"
            elif kind == "user":
                if o[0] != "err":
                    return f"the error raised by the callback {site} was taken for success: {cut(o)}"
                if site[0] == "__post_init__" and site[2] and not same:
                    return f"the constructor's own error {site} did not reach the caller; the call gives {cut(o)}"
        return None
