"""C05: what a call returns does not depend on what the process did before."""
from __future__ import annotations

import copy
import random

from .. import common, engine, gen
from ..common import Prop, Skip, cut, h
from ..forkrun import in_child
from ..ops import OpGen, attach_docs, de_opts, targets
from .first_use import ALLTAGS, TAGS, parts, twin_module

BAD_DOCS = [("json", "'{'"), ("json", "'[1,'"), ("msgpack", "b'\\xc1'"), ("yaml", "'a: [1'"), ("toml", "'a = '"),
            ("dict", "{}"), ("json", "'{}'"), ("pickle", "b'x'"), ("dict", "None"), ("tuple", "()")]


class History(Prop):
    id = "C05"
    quick_cases = 4000
    orders = 10
    level = "exploration"
    technique = "deterministic simulation: seeded histories of one process, differential against pristine processes"
    nontrivial_key = "histories"
    rule = (
        "a case is a module and a set of scenes (calls over all formats, options, targets and union orders, calls "
        "that fail, definitions, uses, re-definitions and collection of same-named classes); each run plays the scenes "
        "in a seeded order with repetitions in one process; non-trivial when at least two scenes ran, distinct by "
        "case and order"
    )
    level_note = (
        "Seeded search over histories: every scene of every history must give exactly what it gives in a forked "
        "process in which nothing else happened. Sampled histories of up to about 20 scenes."
    )
    assumptions = [
        "the scene alone in a pristine process is its specification",
        "wrongly typed data is only given to undecorated classes that are not members of other classes, and values of "
        "undecorated subclasses are not put in fields typed by their base (known findings nested-plain-check, "
        "subclass-in-base-field)",
    ]

    # -- generation ---------------------------------------------------------------------------
    def make(self, rng, tier):
        s = gen.Schema(rng)
        s.untag = False
        mode = rng.choices(["plain", "mixed", "deco"], [4, 3, 4])[0]
        lookalike = mode == "deco" and rng.random() < 0.6  # versions of a class in unions
        if lookalike:
            s.likep = 0.8
        classes = []
        for i in range(rng.randrange(2, 6)):
            base = None
            if classes and rng.random() < 0.25:
                base = rng.choice(classes)
            plain = base.plain if base else {"plain": True, "mixed": rng.random() < 0.5, "deco": False}[mode]
            pool = classes[:] if rng.random() < 0.7 else []
            classes.append(s.new_class(plain=plain, pool=pool, base=base, codecs=rng.random() < 0.6,
                                       opts=None if rng.random() < 0.6 else [], hooks=mode == "deco"))
        refs = any(f[1].refs for c in classes for f in c.all_fields())
        flat = mode == "plain" and not refs and rng.random() < 0.5
        safe = mode == "deco" or flat
        gens = []
        if not flat and rng.random() < 0.3:
            g = s.generic_class(plain=mode != "deco")
            for a in rng.sample(gen.PRIMS, 2) + [classes[0].ty()]:
                ty = s.generic_ty(g, a)
                gens.append((ty, ty.src, False))
        case = {"modules": [{"name": "wl_m", "parts": parts(s)}], "shared": {}, "docs_from": {}, "threads": [],
                "fine": False, "rng": rng.randrange(1 << 30)}
        s.unions = not flat
        tg = targets(rng, s, classes) + gens if not lookalike else []
        for _ in range(0 if flat else rng.randrange(1, 4) if lookalike else rng.randrange(0, 3)):
            arms = rng.sample(classes, min(rng.choice([2, 2, 3]), len(classes)))
            arms = [a.ty() for a in arms] + ([s.leaf()] if rng.random() < (0.2 if lookalike else 0.5) else [])
            kind = rng.choice(list(TAGS) + ["external", None] + ["external"] * (4 * lookalike))
            for a in (arms, arms[::-1], arms):
                u = gen.t_union(a)
                if u.kind == "union":
                    tag = rng.choice(TAGS[kind] if kind else ALLTAGS)
                    if lookalike and kind == "external" and rng.random() < 0.7:
                        tag = "Untagged({})"
                    if "Untagged" in tag and not s.untagged_ok(u.refs):
                        tag = "{}"
                    tg.append((u, tag.format(u.src), True))
                    if rng.random() < 0.4:
                        tg.append((gen.Ty(f"list[{u.src}]", lambda r, d, u=u: f"[{u.val(r, d)}]", kind="seq"),
                                   f"list[{u.src}]", True))
        if not flat and not gens and rng.random() < 0.15:  # classes of the same names in another module
            again, m = twin_module(rng, s, classes)
            case["modules"].append(m)
            for ty, c, need in tg[:]:
                ty = again(ty)
                tg.append((ty, again(gen.Ty(c, None)).src if c else None, need))
        if rng.random() < 0.4:
            t = rng.choice(gen.STD)
            for w in ("{}", "list[{}]", "Optional[{}]", "dict[str, {}]"):
                if rng.random() < 0.5:
                    v = {"l": "[{}]", "d": "{{'k': {}}}"}.get(w[0], "{}")
                    tg.append((gen.Ty(w.format(t.src), lambda r, d, v=v, t=t: v.format(t.val(r, d)), kind="std"),
                               w.format(t.src), False))
        tg = tg or targets(rng, s, classes)
        og = OpGen(rng, case, tg, bad=0.3 if safe else 0.0, share=0.4, sparse=0.5 if lookalike else 0.15)
        if lookalike:
            og.fmts = ["dict", "dict", "json", "tuple"]
            og.weights = (2, 5, 1)
        scenes = []
        for _ in range(rng.randrange(6, 14) if lookalike else rng.randrange(4, 12)):
            x = rng.random()
            near = [sc[0] for sc in scenes if sc[0]["k"] in ("ser", "de") and "o" in sc[0]]
            if near and rng.random() < 0.2:  # the same call with other options
                op = dict(rng.choice(near))
                op["o"] = (gen.ser_opts if op["k"] == "ser" else de_opts)(rng, op["fmt"])
                scenes.append([op])
            elif x < 0.8:
                scenes.append([og.op()])
            else:
                fmt, doc = rng.choice(BAD_DOCS)
                c = rng.choice(classes)
                t = rng.choice([c.name, f"list[{c.name}]", f"Optional[{c.name}]"]) if safe else c.name
                if not safe and doc in ("{}", "'{}'", "None", "()"):
                    doc = "'{'"
                    fmt = "json"
                scenes.append([{"k": "de", "fmt": fmt, "c": t, "d": doc}])
        if rng.random() < 0.1:
            scenes.append([{"k": "ser", "fmt": "dict", "v": "object()", "c": None}])
        # classes of the same name, defined again and again
        if not flat and rng.random() < 0.5:
            self.redefinitions(rng, s, classes, mode, scenes)
        case["scenes"] = scenes
        return case

    def redefinitions(self, rng, s, classes, mode, scenes):
        fut = "from __future__ import annotations\n" if s.future else ""
        for name in ["R0", "R1"][: rng.randrange(1, 3)]:
            for k in range(rng.randrange(2, 4)):
                plain = {"plain": True, "deco": False}.get(mode, rng.random() < 0.5)
                c = s.new_class(plain=plain, pool=classes if rng.random() < 0.4 else [], name=name,
                                codecs=rng.random() < 0.5, opts=None if rng.random() < 0.7 else [])
                s.classes.remove(c)
                sc = [{"k": "exec", "mod": "wl_m", "src": fut + c.source() + "\n"}]
                ty = c.ty()
                own = [(ty, None, False), (gen.wrap_target(rng, ty), None, False)]
                u = gen.t_union([ty, rng.choice([rng.choice(classes).ty(), gen.PRIMS[0]])])
                tag = rng.choice(["{}", "Untagged({})", "InternalTagging('type', {})"])
                if "Untagged" in tag and not s.untagged_ok(u.refs - {name} | set().union(*[f[1].refs for f in c.all_fields()])
                                                           | ({"?"} if plain else set())):
                    tag = "{}"
                own.append((u, tag.format(u.src), True))
                for _ in range(rng.randrange(1, 3)):
                    t, ce, need = rng.choice(own)
                    sc.append({"k": "rt", "fmt": gen.pick_fmt(rng, None if not need else ["dict", "json", "msgpack"]),
                               "v": t.val(rng, 2), "c": ce if need else None, "t": ce or t.src})
                if rng.random() < 0.6:
                    sc.append({"k": "del", "name": name})
                    sc.append({"k": "gc"})
                scenes.append(sc)

    # -- runs ---------------------------------------------------------------------------------
    def run_case(self, case, variant, st):
        world = self.load(case)
        attach_docs(world, case)
        base = []
        for sc in case["scenes"]:
            r = in_child(common.solo, world, case, sc)
            if r["verdict"]:
                raise Skip(f"baseline {r['verdict']}")
            if any(o[0] == "bad" for o in r["outs"]):
                raise Skip("bad op: " + str(r["outs"])[:100])
            base.append(r["outs"])
        st.add("baseline_ops", sum(len(b) for b in base))
        st.add("baseline_ok", sum(1 for b in base for o in b if o[0] == "ok"))
        variants = [variant] if variant is not None else self.make_variants(case)
        for v in variants:
            res = in_child(self.run_variant, world, case, v)
            st.add("runs")
            st.add("steps", res["steps"])
            st.add("scenes", len(v["order"]))
            if len(v["order"]) > 1:
                st.seen("histories", h([case["seed"], v["order"]]))
            bad = self.judge(case, v, base, res)
            if bad:
                return {"what": bad, "case": case, "variant": v}
        return None

    def make_variants(self, case):
        rng = random.Random(case["seed"] + ":orders")
        n = len(case["scenes"])
        for k in range(self.orders):
            o = list(range(n))
            rng.shuffle(o)
            o += [rng.randrange(n) for _ in range(rng.randrange(0, n))]
            yield {"order": o}

    def run_variant(self, world, case, v):
        ops = [op for i in v["order"] for op in case["scenes"][i]]
        return common.solo(world, case, ops)

    def judge(self, case, v, base, res):
        if res["verdict"] == "harness":
            raise engine.HarnessError(res["detail"])
        if res["verdict"]:
            return f"{res['verdict']}: {res['detail']}"
        k = 0
        for n, i in enumerate(v["order"]):
            for j, b in enumerate(base[i]):
                o = res["outs"][k]
                k += 1
                if o != b:
                    return (f"after the scenes {v['order'][:n]}, {cut(case['scenes'][i][j], 300)} gives {cut(o)}; "
                            f"in a process that did nothing before it gives {cut(b)}")
        return None

    # -- shrinking ----------------------------------------------------------------------------
    def shrink(self, case, variant):
        o = variant["order"]
        for i in range(len(o)):
            yield case, {"order": o[:i] + o[i + 1:]}
        for i in sorted(set(range(len(case["scenes"]))) - set(o), reverse=True):
            c = copy.deepcopy(case)
            del c["scenes"][i]
            yield c, {"order": [x - (x > i) for x in o]}
        for i, sc in enumerate(case["scenes"]):
            for j in range(len(sc)):
                if len(sc) > 1:
                    c = copy.deepcopy(case)
                    del c["scenes"][i][j]
                    yield c, variant
        yield from common.generic_shrink(case, variant)
