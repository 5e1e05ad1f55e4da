"""C06: class preparation cut short can be retried."""
from __future__ import annotations

from .. import gen
from ..faultprop import FaultProp
from ..ops import OpGen, targets
from .first_use import parts


class Retry(FaultProp):
    id = "C06"
    quick_wall = 50.0
    quick_cases = 3000
    double = 0.55
    rule = (
        "a case is a preparing operation (decorating a class, executing its definition, or a first call on "
        "undecorated classes or unions), cut short one to six times by an exception at a counted point, by a failing "
        "user hook, by lack of stack or by an annotation that does not resolve yet, then repeated and followed by "
        "probes; non-trivial when a fault fired inside the operation, distinct by case, fault position and schedule"
    )
    level_note = (
        "Seeded fault positions over function entries, loop jumps and C-call returns (signals), C calls (MemoryError), "
        "user callbacks, stack depths and unresolved names; after each, the retry and probes on this and other "
        "classes must equal an undisturbed process. Sampled, not all positions of every program."
    )
    assumptions = ["exceptions arrive where CPython delivers them: function entry, backward jump, return of a C call; "
                   "memory errors in place of a C call made by pyserde, generated or user code"]

    def make(self, rng, tier):
        s = gen.Schema(rng)
        s.untag = False
        mode = rng.choices(["first", "define", "deco", "union", "late"], [3, 4, 6, 1, 2])[0]
        # (beartype does not accept the string annotations, and checks every nested class)
        s.baredeco = mode != "deco"
        s.annhooks = mode == "first" and rng.random() < 0.25
        case = {"modules": [], "shared": {}, "docs_from": {}, "threads": [], "other": [], "mode": mode,
                "fine": False, "rng": rng.randrange(1 << 30)}
        late = None
        classes = []
        if mode == "late" or rng.random() < 0.2 and mode in ("first", "union"):
            late = gen.Cls("Late")
            late.fields = [("q", gen.PRIMS[0], None, True)]
            late.body = ["q: int"]
            late.decos = ["@dataclass"]
        for i in range(1 if s.annhooks else rng.randrange(1, 4)):
            base = rng.choice(classes) if classes and rng.random() < 0.15 else None
            fwd = (late,) if mode == "late" and i == 0 else ()
            classes.append(s.new_class(plain=True, pool=classes[:], base=base, fwd=fwd, codecs=rng.random() < 0.5))
        plain = classes[:]
        extra = None
        if mode in ("define", "deco") or (mode == "late" and rng.random() < 0.5):
            extra = s.new_class(plain=False, pool=plain * 2 if rng.random() < 0.7 else [], name="D0", hooks=True,
                                fwd=(late,) if mode == "late" else ())
            s.classes.remove(extra)
        case["modules"] = [{"name": "wl_m", "parts": parts(s)}]
        fut = "from __future__ import annotations\n" if s.future else ""
        tg = targets(rng, s, plain)
        if s.annhooks:
            tg = [t for t in tg if not t[2]]
        og = OpGen(rng, case, tg, bad=0.0)
        probes = []
        if mode in ("define", "deco") or extra is not None:
            if mode == "deco":
                deco, dc = extra.decos[0], extra.decos[-1]
                if len(extra.decos) > 2:
                    deco = "@serde_deco"
                extra.decos = [dc]
                case["modules"][0]["parts"].append(extra.source())
                case["P"] = {"k": "deco", "c": extra.name, "d": deco[1:]}
            else:
                case["P"] = {"k": "exec", "mod": "wl_m", "src": fut + extra.source() + "\n"}
            for _ in range(rng.randrange(3, 8)):
                ty = gen.wrap_target(rng, extra.ty()) if rng.random() < 0.5 else extra.ty()
                probes.append({"k": "rt", "fmt": gen.pick_fmt(rng), "v": ty.val(rng, 3), "c": None, "t": ty.src})
                x = rng.random()
                if x < 0.5:
                    probes[-1].update(fmt="dict", drop=rng.randrange(1 << 30))
                elif x < 0.8 and not any(f[1].refs for f in extra.all_fields()):
                    # (see the known finding nested-plain-check)
                    probes[-1].update(fmt="dict", mut=rng.randrange(1 << 30))
        else:
            if mode == "union":
                u = [t for t in tg if t[0].kind == "union"] or tg
                case["P"] = og.op(rng.choice(u))
            elif mode == "late":
                case["P"] = og.op((classes[0].ty(), None, False))
                if case["P"]["k"] == "de":
                    # the document of a value that exists before Late does
                    d = case["P"]["d"]
                    case["docs_from"].pop(d, None)
                    case["P"] = {"k": "ser", "fmt": "dict", "v": classes[0].value(rng, 2), "c": None, "o": {}}
            else:
                case["P"] = og.op((rng.choice(plain).ty(), None, False))
        if mode == "late":
            case["docs_from"] = {}
            case["late"] = True
            lsrc = fut + late.source() + "\n"
            rest = [{"k": "exec", "mod": "wl_m", "src": lsrc}, case["P"]]
            for c in plain:
                rest.append({"k": "rt", "fmt": gen.pick_fmt(rng), "v": c.value(rng, 2), "c": None, "t": c.name})
            case["rest"] = rest + probes
            return case
        if plain and not s.annhooks:
            for _ in range(rng.randrange(1, 4)):
                c = rng.choice(plain)
                probes.append({"k": "rt", "fmt": "dict", "v": c.value(rng, 2), "c": None, "t": c.name,
                               "drop": rng.randrange(1 << 30)})
        between = [og.op() for _ in range(rng.choice([0, 0, 1, 2]))]
        case["rest"] = between + [case["P"]] + probes + [og.op() for _ in range(rng.randrange(1, 3))]
        case["other"] = [og.op() for _ in range(rng.randrange(1, 3))]
        return case
