"""C01 / C02: concurrent first use."""
from __future__ import annotations

from .. import gen
from ..common import DiffProp, pin
from ..forkrun import in_child
from ..ops import attach_docs, de_opts


class FirstUse(DiffProp):
    rule = (
        "a case is a generated module of dataclasses and 2-4 threads of first calls on them; each case is run "
        "under several seeded schedules; a run is non-trivial when at least one thread switch happened inside "
        "the library, distinct by the hash of its sequence of (thread, code site) switches"
    )
    level_note = (
        "Seeded search over thread interleavings of first calls: each run must equal, call by call, the same call "
        "alone in a forked pristine process. Not exhaustive. Trusts CPython's monitoring events as preemption "
        "points (line or bytecode boundaries of pyserde, generated and user code) and that third-party code is atomic."
    )
    assumptions = [
        "preemption happens at line boundaries (bytecode boundaries in fine runs) of pyserde, generated and "
        "workload code; third-party libraries run without preemption",
        "the single call in a pristine process is the specification of that call",
    ]

    def run_case(self, case, variant, st):
        world = self.load(case)
        attach_docs(world, case)
        base, total = self.baselines(world, case, st)
        variants = [variant] if variant is not None else self.make_variants(case, total)
        for v in variants:
            res = in_child(self.run_variant, world, case, v)
            self.count(st, case, v, res)
            bad = self.judge(case, v, base, res)
            if bad:
                return {"what": bad, "case": case, "variant": pin(v, res)}
        return None


class PlainFirstUse(FirstUse):
    id = "C01"
    quick_cases = 1600
    schedules = 10

    def make(self, rng, tier):
        s = gen.Schema(rng)
        s.untag = False
        classes = []
        n = rng.randrange(1, 5)
        shape = rng.random()
        codecs = rng.random() < 0.6
        if shape < 0.25:  # mutual recursion
            a = gen.Cls("C0")
            b = s.new_class(plain=True, fwd=(a,), name="C1", self_ref=False, codecs=codecs)
            s.classes.remove(b)
            fwd = (b,)
            if rng.random() < 0.4:
                c = s.new_class(plain=True, fwd=(a,), name="C2", pool=[b], self_ref=False, codecs=codecs)
                s.classes.remove(c)
                fwd = (b, c)
            a2 = s.new_class(plain=True, fwd=fwd, name="C0", self_ref=False, codecs=codecs)
            a.__dict__.update(a2.__dict__)
            classes = [a2] + list(fwd)
            s.classes = list(classes)
        else:
            for i in range(n):
                base = None
                if classes and rng.random() < 0.15:
                    base = rng.choice(classes)
                classes.append(s.new_class(plain=True, pool=classes[:], codecs=codecs, base=base))
        gens = []
        if rng.random() < 0.15:
            g = s.generic_class()
            gens.append(s.generic_ty(g, rng.choice(gen.PRIMS)))
            if classes:
                gens.append(s.generic_ty(g, classes[0].ty()))
        # wrongly typed data only where the way a class is reached cannot decide its type checking
        # (known finding nested-plain-check)
        bad = 0.15 if not gens and not any(f[1].refs for c in classes for f in c.all_fields()) else 0.0
        if shape >= 0.25 and rng.random() < 0.2:
            bad = 0.0
            # a decorated class prepared before the threads start, containing some of them
            d = s.new_class(plain=False, pool=classes[:], name="D0", codecs=False, opts=[])
            classes.append(d)
        case = {"modules": [{"name": "wl_m", "parts": parts(s)}], "shared": {}, "docs_from": {}, "threads": [],
                "fine": rng.random() < 0.2, "rng": rng.randrange(1 << 30)}
        nt = rng.choices([2, 3, 4], [6, 3, 1])[0]
        focus = rng.sample(classes, min(len(classes), rng.randrange(1, 3)))
        for t in range(nt):
            ops = []
            if t and rng.random() < 0.25:  # the same calls at the same time
                case["threads"].append([dict(op) for op in case["threads"][0]])
                continue
            for j in range(rng.choices([1, 2], [3, 1])[0]):
                if gens and rng.random() < 0.3:
                    ty = rng.choice(gens)
                else:
                    c = rng.choice(focus) if rng.random() < 0.75 else rng.choice(classes)
                    ty = c.ty()
                ty = gen.wrap_target(rng, ty)
                ops.append(make_op(rng, case, ty, bad=bad))
            case["threads"].append(ops)
        return case


def parts(s):
    head = ("from __future__ import annotations\n" if s.future else "") + gen.HEADER
    return [head] + [c.source() for c in s.generics() + s.classes] + list(s.aliases)


def make_op(rng, case, ty, cexpr=None, fmts=None, need_c=False, bad=0.0):
    """A call on a value of ty; the value may be shared by several threads."""
    fmt = gen.pick_fmt(rng, fmts)
    k = rng.choices(["ser", "de", "rt"], [4, 5, 1])[0]
    v = ty.val(rng, 3)
    if rng.random() < 0.5:
        name = f"v{len(case['shared'])}"
        case["shared"][name] = v
        v = name
    c = cexpr if (need_c or (cexpr and rng.random() < 0.8)) else None
    t = cexpr or ty.src
    if k == "ser":
        return {"k": "ser", "fmt": fmt, "v": v, "c": c, "o": gen.ser_opts(rng, fmt)}
    if k == "rt":
        return {"k": "rt", "fmt": fmt, "v": v, "c": c, "t": t}
    name = f"d{len(case['docs_from'])}"
    d = {"fmt": fmt, "v": v, "c": c}
    if rng.random() < bad:
        d["mut"] = rng.randrange(1 << 30)
    case["docs_from"][name] = d
    return {"k": "de", "fmt": fmt, "c": t, "d": name, "o": de_opts(rng, fmt)}


# taggings that look alike
TAGS = {
    "adjacent": ["AdjacentTagging('t', 'c', {})", "AdjacentTagging('t', 'd', {})", "AdjacentTagging('k', 'c', {})",
                 "AdjacentTagging('c', 't', {})"],
    "internal": ["InternalTagging('type', {})", "InternalTagging('kind', {})", "AdjacentTagging('type', 'c', {})"],
    "external": ["{}", "ExternalTagging({})", "Untagged({})"],
}
ALLTAGS = ["{}", "{}", "ExternalTagging({})", "InternalTagging('type', {})", "AdjacentTagging('t', 'c', {})", "Untagged({})",
           "InternalTagging('kind', {})"]


def twin_module(rng, s, classes):
    """A second module with classes of the same names: the same or other declarations.  -> (type there, module)"""
    import re

    def sub(x):
        return re.sub(r"\bC(\d+)\b", r"N_C\1", x)

    body = [c.source() for c in classes]
    if rng.random() < 0.5:
        body = [re.sub(r"rename_all='\w+'", "rename_all='pascalcase'", b) if rng.random() < 0.7 else b for b in body]
    head = ("from __future__ import annotations\n" if s.future else "") + (
        "import wl_m\nglobals().update({k: v for k, v in vars(wl_m).items() if k[:2] != '__' and not (k[0] == 'C' and k[1:].isdigit())})")
    m = {"name": "wl_n", "parts": [head] + body + [f"N_{c.name} = {c.name}" for c in classes]}

    def again(ty):
        return gen.Ty(sub(ty.src), lambda r, d: sub(ty.val(r, d)), refs={sub(x) for x in ty.refs}, kind=ty.kind)

    return again, m


class TargetFirstUse(FirstUse):
    id = "C02"
    quick_wall = 50.0
    quick_cases = 1600
    schedules = 10

    def make(self, rng, tier):
        s = gen.Schema(rng)
        s.untag = False
        classes = []
        for i in range(rng.randrange(1, 4)):
            plain = rng.random() < 0.6
            classes.append(s.new_class(plain=plain, pool=classes[:] if rng.random() < 0.5 else [],
                                       codecs=rng.random() < 0.3, opts=None if rng.random() < 0.4 else []))
        case = {"modules": [{"name": "wl_m", "parts": parts(s)}], "shared": {}, "docs_from": {}, "threads": [],
                "fine": rng.random() < 0.2, "rng": rng.randrange(1 << 30)}
        # a small family of equal-looking targets
        family = []
        arms = [rng.choice(classes).ty()] + [rng.choice(classes).ty() if rng.random() < 0.5 else s.leaf() for _ in range(rng.randrange(1, 3))]
        u = gen.t_union(arms)
        rev = gen.t_union(list(reversed(arms)))
        opt = gen.t_opt(u, rng)
        fam = [u, rev, rev, u, opt]
        if rng.random() < 0.4:
            fam.append(gen.Ty(" | ".join(dict.fromkeys(a.src for a in arms)), u.val))
        extra = [rng.choice(gen.STD), gen.t_seq(u, rng), gen.t_map(u, rng), gen.t_opt(arms[0], rng),
                 gen.t_union([gen.PRIMS[0], gen.PRIMS[1]]), gen.t_union([gen.PRIMS[1], gen.PRIMS[0]]),
                 gen.t_seq(rng.choice(gen.STD), rng), rng.choice(gen.ENUMS)]
        nt = rng.choices([2, 3, 4], [6, 3, 1])[0]
        kind = rng.choice(list(TAGS) + [None, None])
        if rng.random() < 0.25:  # classes of the same names in another module
            again, m = twin_module(rng, s, classes)
            case["modules"].append(m)
            fam += [again(ty) for ty in fam]
        for t in range(nt):
            ops = []
            if t and rng.random() < 0.2:
                case["threads"].append([dict(op) for op in case["threads"][0]])
                continue
            for j in range(rng.choices([1, 2], [3, 1])[0]):
                if rng.random() < 0.75:
                    ty = rng.choice(fam)
                    src = ty.src
                    tag = rng.choice(TAGS[kind] if kind and rng.random() < 0.8 else ALLTAGS)
                    if "Untagged" in tag and not s.untagged_ok(ty.refs):
                        tag = "{}"
                    if ty.src.startswith("Optional") or "None" in ty.src:
                        tag = "{}"
                    ops.append(make_op(rng, case, ty, cexpr=tag.format(src), need_c=True,
                                       fmts=["dict", "tuple", "json", "msgpack", "yaml"]))
                else:
                    ty = rng.choice(extra)
                    ops.append(make_op(rng, case, ty, cexpr=ty.src if rng.random() < 0.6 else None,
                                       fmts=["dict", "tuple", "json", "msgpack", "yaml"]))
            case["threads"].append(ops)
        return case
