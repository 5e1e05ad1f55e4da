"""C03: classes defined concurrently keep their own options and member codecs."""
from __future__ import annotations

from .. import gen
from ..common import DiffProp, pin
from ..forkrun import in_child
from .first_use import parts


class ConcurrentDefs(DiffProp):
    id = "C03"
    quick_cases = 2500
    schedules = 9
    baseline_mode = "thread"
    rule = (
        "a case is a module of shared plain classes and 2-4 threads that each define one or two decorated classes "
        "(own options, members shared with the other threads, self-recursive in a thread of their own) and then use "
        "them; distinct by the hash of the sequence of (thread, code site) switches, non-trivial when a switch "
        "happened inside the library"
    )
    level_note = (
        "Seeded search over interleavings of class definitions and first uses: everything each thread observes must "
        "equal what it observes when its operations run alone in a pristine process. Not exhaustive."
    )
    assumptions = ["third-party libraries run without preemption",
                   "definitions of different threads are independent except for shared undecorated members, so "
                   "running one thread alone is equivalent to running all one after another"]

    def make(self, rng, tier):
        s = gen.Schema(rng)
        s.untag = False
        shared = []
        for i in range(rng.randrange(0, 4)):
            base = rng.choice(shared) if shared and rng.random() < 0.15 else None
            shared.append(s.new_class(plain=True, pool=shared[:], base=base, codecs=rng.random() < 0.5))
        base_parts = parts(s)
        nt = rng.choices([2, 3, 4], [6, 3, 1])[0]
        case = {"modules": [{"name": "wl_m", "parts": base_parts}], "shared": {}, "docs_from": {}, "threads": [],
                "fine": rng.random() < 0.15, "rng": rng.randrange(1 << 30)}
        fut = "from __future__ import annotations\n" if s.future else ""
        for t in range(nt):
            ops = []
            own = []
            for k in range(rng.choices([1, 2], [3, 1])[0]):
                extra = []
                if rng.random() < 0.4:  # private plain members of this definition
                    m = s.new_class(plain=True, pool=shared + own, name=f"M{t}_{k}", codecs=rng.random() < 0.5,
                                    base=rng.choice(shared) if shared and rng.random() < 0.3 else None)
                    extra.append(m)
                base = None
                if own and rng.random() < 0.2:
                    base = own[-1]
                x = rng.random()
                c = s.new_class(plain=x < 0.12, pool=(shared + extra) * 2 + own, name=f"D{t}_{k}", base=base,
                                hooks=True)
                if base is not None and base.plain != c.plain:
                    c.base = None
                    c.fields = c.fields or []
                own.append(c)
                srcs = [m.source() for m in extra]
                if not c.plain and rng.random() < 0.35 and c.decos[0].startswith("@serde_deco"):
                    # dataclass first, decorated by a separate call
                    deco = c.decos[0][1:]
                    c.decos = c.decos[1:]
                    ops.append({"k": "exec", "mod": "wl_m", "src": fut + "\n\n".join(srcs + [c.source()]) + "\n"})
                    ops.append({"k": "deco", "c": c.name, "d": deco if deco != "serde_deco" else "serde_deco"})
                else:
                    ops.append({"k": "exec", "mod": "wl_m", "src": fut + "\n\n".join(srcs + [c.source()]) + "\n"})
                for _ in range(rng.randrange(1, 4)):
                    target = rng.choice([c, c, c] + extra + (shared if rng.random() < 0.5 else []))
                    fmt = gen.pick_fmt(rng)
                    ty = gen.wrap_target(rng, target.ty())
                    kind = rng.choice(["ser", "rt", "rt"])
                    op = {"k": kind, "fmt": fmt, "v": ty.val(rng, 3), "c": None}
                    if kind == "ser":
                        op["o"] = gen.ser_opts(rng, fmt)
                    else:
                        op["t"] = ty.src
                    ops.append(op)
            case["threads"].append(ops)
        return case

    def run_case(self, case, variant, st):
        world = self.load(case)
        base, total = self.baselines(world, case, st)
        variants = [variant] if variant is not None else self.make_variants(case, total)
        for v in variants:
            res = in_child(self.run_variant, world, case, v)
            self.count(st, case, v, res)
            bad = self.judge(case, v, base, res)
            if bad:
                return {"what": bad, "case": case, "variant": pin(v, res)}
        return None
