"""C13: global codec registration takes effect atomically and in order."""
from __future__ import annotations

import copy
import json
import random

from .. import common, engine, gen, world as W
from ..common import Prop, Skip, cut, h
from ..forkrun import in_child
from .first_use import parts

# codec -> the types it handles
CODECS = {"CodecA": "dt pair", "CodecDtB": "dt", "CodecDtC": "dt", "CodecPairB": "pair", "CodecInt": "int",
          "CodecStd": "dec uuid", "CodecStr": "str", "CodecEnum": "enum"}
PAIR = gen.Ty("Pair", lambda r, d: f"Pair({r.randrange(9)}, 'p')", hashable=True, kind="pair")
TYS = {"dt": gen.STD[4], "int": gen.PRIMS[0], "dec": gen.STD[0], "uuid": gen.STD[2], "str": gen.PRIMS[1],
       "enum": gen.ENUMS[0]}


class Registration(Prop):
    id = "C13"
    quick_cases = 4000
    schedules = 10
    technique = ("deterministic simulation: seeded schedules of registrations, definitions and calls; every outcome "
                 "must be explained by a set of codecs registered in the operation's interval")
    rule = (
        "a case is 1-2 threads that register global codecs in order and 1-2 threads that define and use classes, make "
        "top-level calls and use classes defined before, under seeded schedules; every outcome is compared with the "
        "outcomes of the same operations after exactly the registrations that the interval of the operation allows; "
        "non-trivial when a thread switch happened inside the library, distinct by the switch sequence"
    )
    level_note = (
        "Seeded search over interleavings. For a definition and everything done with the defined class one prefix of "
        "the serializer registrations and one of the deserializer registrations within the definition's interval must "
        "explain all outcomes; for a top-level call a prefix within the call's interval; classes defined before must "
        "behave as without any registration."
    )
    assumptions = ["two threads never register codecs for the same type at the same time (their order would be open)",
                   "undecorated classes that were not used before the registrations are only used as private members "
                   "of a definition"]

    # -- generation ---------------------------------------------------------------------------
    def make(self, rng, tier):
        s = gen.Schema(rng)
        s.unions = True
        before = []
        kinds = rng.sample(list(TYS), rng.randrange(2, 4)) + ["dt"]
        for i in range(rng.randrange(0, 3)):
            before.append(self.new_class(rng, s, f"B{i}", kinds, [], plain=rng.random() < 0.4))
        case = {"modules": [{"name": "wl_m", "parts": parts(s)}], "shared": {}, "docs_from": {}, "threads": [],
                "fine": rng.random() < 0.12, "rng": rng.randrange(1 << 30), "plan": []}
        fut = "from __future__ import annotations\n" if s.future else ""
        tops = self.tops(rng, kinds)
        case["warm"] = []
        case["early"] = []  # calls whose effect on later ones must be none
        for c in before:
            for fmt in ("dict", "tuple"):
                case["warm"].append({"k": "rt", "fmt": fmt, "v": c.ty().val(rng, 2), "c": None, "t": c.name})
        for ty, c in tops:
            if rng.random() < 0.5:
                case["early"].append({"k": "ser", "fmt": "dict", "v": ty.val(rng, 2), "c": c, "o": {}})
                case["early"].append({"k": "de", "fmt": "dict", "c": c or ty.src, "d": "None"})
        # registrars
        groups = [set(kinds) | {"pair"}]
        nreg = 2 if rng.random() < 0.35 else 1
        if nreg == 2:
            a = set(k for k in groups[0] if rng.random() < 0.5)
            groups = [a, groups[0] - a]
        unit = 0
        for g in groups:
            ops = []
            names = [n for n, k in CODECS.items() if set(k.split()) <= g]
            for _ in range(rng.choices([1, 2, 3], [3, 3, 2])[0]):
                if not names:
                    break
                n = rng.choice(names)
                pair = [{"k": "reg", "w": "se", "e": n + "()"}, {"k": "reg", "w": "de", "e": n + "De()"}]
                x = rng.random()
                ops += pair if x < 0.6 else pair[::-1] if x < 0.8 else [rng.choice(pair)]
            for op in ops:
                op["u"] = [unit, "reg"]
                unit += 1
            if ops and rng.random() < 0.4:
                rng.choice(ops)["flag_set"] = f"reg{len(case['threads'])}"
            case["threads"].append(ops)
        case["regs"] = len(case["threads"])
        flags = [op["flag_set"] for t in case["threads"] for op in t if "flag_set" in op]
        nuser = rng.choice([1, 2, 2, 3])
        for t in range(nuser):
            ops = []
            for k in range(rng.choices([1, 2], [2, 1])[0]):
                x = rng.random()
                if x < 0.55:
                    extra = []
                    if rng.random() < 0.35:
                        extra.append(self.new_class(rng, s, f"M{t}_{k}", kinds, [], plain=True))
                    c = self.new_class(rng, s, f"D{t}_{k}", kinds, extra + (before if rng.random() < 0.3 else []),
                                       plain=False)
                    new = [{"k": "exec", "mod": "wl_m",
                            "src": fut + "\n\n".join([m.source() for m in extra] + [c.source()]) + "\n"}]
                    for _ in range(rng.randrange(1, 3)):
                        ty = gen.wrap_target(rng, c.ty()) if rng.random() < 0.3 else c.ty()
                        if ty.kind == "map" or ty.src.startswith(("tuple", "dict")) or "dict" in ty.src:
                            ty = c.ty()  # (a bare str or int is subject to the codecs known at the call)
                        new.append({"k": rng.choice(["ser", "rt"]), "fmt": gen.pick_fmt(rng), "v": ty.val(rng, 2),
                                    "c": None, "t": ty.src})
                    for op in new:
                        op["u"] = [unit, "def"]
                    unit += 1
                    ops += new
                elif x < 0.85 or not before:
                    ops.append(self.top(rng, tops, unit))
                    unit += 1
                else:
                    c = rng.choice(before)
                    ops.append({"k": rng.choice(["ser", "rt"]), "fmt": rng.choice(["dict", "json", "tuple"]),
                                "v": c.ty().val(rng, 2), "c": None, "t": c.name, "u": [unit, "old"]})
                    unit += 1
            if flags and rng.random() < 0.4:
                rng.choice(ops)["flag_wait"] = rng.choice(flags)
            case["threads"].append(ops)
        s.classes = []
        return case

    def new_class(self, rng, s, name, kinds, pool, plain):
        c = gen.Cls(name)
        c.plain = plain
        for i in range(rng.randrange(1, 5)):
            k = rng.choice(kinds)
            x = rng.random()
            if pool and x < 0.3:
                ty = rng.choice(pool).ty()
            else:
                ty = TYS[k]
                if k == "pair":
                    ty = PAIR
                if x < 0.45:
                    ty = gen.t_opt(ty, rng, False)
                elif x < 0.55:
                    ty = gen.t_seq(ty, rng)
                elif x < 0.62:
                    ty = gen.t_map(ty, rng)
                elif x < 0.7:
                    ty = gen.t_union([ty, TYS[rng.choice(kinds)]])
            own = ""
            if ty.kind == "dt" and rng.random() < 0.15:
                own = " = field(serializer=f_dt_se, deserializer=f_dt_de)"
            c.fields.append((f"f{i}", ty, None, True))
            c.body.append(f"f{i}: {ty.src}{own}")
        if plain:
            c.decos = ["@dataclass"]
        else:
            opts = []
            if rng.random() < 0.25:
                opts.append("class_serializer=CodecInt(), class_deserializer=CodecIntDe()" if rng.random() < 0.5 else
                            "class_serializer=CodecDtC(), class_deserializer=CodecDtCDe()")
            if rng.random() < 0.2:
                opts.append("type_check=" + rng.choice(["strict", "coerce", "disabled"]))
            if rng.random() < 0.15:
                opts.append("tagging=" + rng.choice(gen.TAGGINGS))
            c.decos = s.decorators(c, "@dataclass", opts)
        s.classes.append(c)
        return c

    def tops(self, rng, kinds):
        """Targets of top-level calls that hold one value."""
        out = []
        for k in kinds:
            t = TYS[k]
            out += [(t, None), (t, None), (gen.t_opt(t, rng, False), None),
                    (gen.Ty(f"list[{t.src}]", lambda r, d, t=t: f"[{t.val(r, d)}]"), None)]
            u = gen.t_union([t, TYS[rng.choice(kinds)]])
            if u.kind == "union":
                out.append((u, rng.choice(["{}", "{}", "Untagged({})"]).format(u.src)))
        return rng.sample(out, min(4, len(out)))

    def top(self, rng, tops, unit):
        ty, c = rng.choice(tops)
        if rng.random() < 0.6 or (c is None and ty.src.startswith("Optional")):
            return {"k": "ser", "fmt": rng.choice(["dict", "json", "tuple", "msgpack"]), "v": ty.val(rng, 2), "c": c,
                    "o": {}, "u": [unit, "top"]}
        # decode something that only some of the codecs understand
        k = rng.choice(["dt", "dt", "str", "int"])
        docs = {"dt": ["'2020-01-02T00:00:00'", "'A02/01/20'", "'B01-02-2020'", "'C2020.01.02'"], "int": ["1005", "'1005'"],
                "str": ["'s_x'", "'D1.5'", "'U" + "0" * 31 + "1'", "'ERED'", "'red'", "'1.5'"]}[k]
        t = c or ty.src
        d = rng.choice(docs)
        if t.startswith("list"):
            d = f"[{d}]"
        return {"k": "de", "fmt": "dict", "c": t, "d": d, "o": {}, "u": [unit, "top"]}

    # -- runs ---------------------------------------------------------------------------------
    def run_case(self, case, variant, st):
        world = self.load(case)
        self.world = world
        for op in case["warm"]:
            world.run_op(op)
        self.memo = {}
        total = 0
        for ops in case["threads"]:
            r = common.alone(world, case, strip(ops))
            if r["verdict"]:
                raise Skip("baseline " + r["verdict"])
            if any(o[0] == "bad" for o in r["outs"]):
                raise Skip("bad op: " + str(r["outs"])[:100])
            total += r["steps"]
        st.add("cases_run")
        if variant is not None:
            variants = [variant]
        else:
            rng = random.Random(case["seed"] + ":sched")
            variants = [{"seed": f"{case['seed']}:{k}", "sched": {"kind": rng.choice(common.SCHED_KINDS)},
                         "length": total} for k in range(self.schedules)]
        for v in variants:
            res = in_child(self.run_variant, world, case, v)
            st.add("runs")
            st.add("steps", res["steps"])
            st.add("switches", res["nswitch"])
            st.add("strategy_" + v["sched"]["kind"])
            if res["nswitch"]:
                st.seen("interleavings", res["trace"])
            bad = self.judge(world, case, v, res, st)
            if bad:
                return {"what": bad, "case": case, "variant": common.pin(v, res)}
        return None

    def run_variant(self, world, case, v):
        regs = {"se": [[0, 0] for _ in case["threads"]], "de": [[0, 0] for _ in case["threads"]]}  # started, returned
        spans = {}

        def snap(i):
            return {w: [x[i] for x in regs[w]] for w in regs}

        def before_op(sim, i, j, op):
            if op["k"] == "reg":
                regs[op["w"]][i][0] += 1
            spans[(i, j)] = [snap(1), None]

        def after_op(sim, i, j, op, r, obj):
            if op["k"] == "reg":
                regs[op["w"]][i][1] += 1
            spans[(i, j)][1] = snap(0)

        for op in case["early"]:
            world.run_op(op)
        rng = random.Random(v["seed"])
        strat = engine.make_strategy(v["sched"], rng, v.get("length", 1000), len(case["threads"]), world.sites)
        sim, outs = W.run_threads(world, case, strat, before_op=before_op, after_op=after_op)
        res = common.sim_result(sim, outs)
        res["spans"] = [[spans.get((i, j)) for j in range(len(outs[i]))] for i in range(len(outs))]
        return res

    # -- what exactly these registrations give --------------------------------------------------
    def outcome(self, world, case, ops, nse, nde):
        key = json.dumps([strip(ops), nse, nde])
        if key not in self.memo:
            pre = []
            for w, ns in (("se", nse), ("de", nde)):
                for t, n in enumerate(ns):
                    pre += [op for op in case["threads"][t] if op["k"] == "reg" and op["w"] == w][:n]
            r = common.alone(world, case, strip(pre + ops))
            if r["verdict"]:
                raise Skip("baseline " + r["verdict"])
            self.memo[key] = r["outs"][len(pre):]
        return self.memo[key]

    def judge(self, world, case, v, res, st):
        if res["verdict"] == "harness":
            raise engine.HarnessError(res["detail"])
        if res["verdict"]:
            return f"{res['verdict']}: {res['detail']}"
        units = {}
        for i, ops in enumerate(case["threads"]):
            for j, op in enumerate(ops):
                units.setdefault(tuple(op["u"]), []).append((i, j))
        zero = [0] * len(case["threads"])
        for (u, kind), where in units.items():
            ops = [case["threads"][i][j] for i, j in where]
            got = [res["outs"][i][j] for i, j in where]
            if kind == "reg":
                if got[0][0] != "ok":
                    return f"registration {ops[0]} gives {cut(got[0])}"
                continue
            i, j = where[0]
            lo, hi = res["spans"][i][j]
            if kind == "old":
                states = [(zero, zero)]
            else:
                uses_se = kind == "def" or ops[0]["k"] != "de"
                uses_de = kind == "def" or ops[0]["k"] == "de"
                states = [(a, b) for a in (between(lo["se"], hi["se"]) if uses_se else [zero])
                          for b in (between(lo["de"], hi["de"]) if uses_de else [zero])]
            if len(states) > 1:
                st.add("open_intervals")
            else:
                st.add("exact_intervals")
            allowed = []
            for a, b in states:
                o = self.outcome(world, case, ops, a, b)
                if o == got:
                    break
                allowed.append(o)
            else:
                d = next((k for k in range(len(got)) if got[k] != allowed[0][k]), 0)
                if got[d][0] == "bad":
                    raise Skip("bad op")
                return (f"{kind} {cut([x.get('src') or x for x in strip(ops)], 500)}: got {cut(got[d])}; with the "
                        f"registrations its interval allows (returned {lo}, started {hi}) it gives "
                        f"{cut([a[d] for a in allowed])}")
        return None

    def shrink(self, case, variant):
        for t in range(len(case["threads"])):
            us = list(dict.fromkeys(tuple(op["u"]) for op in case["threads"][t]))
            for u in reversed(us):
                c = copy.deepcopy(case)
                gone = [op["flag_set"] for op in c["threads"][t] if tuple(op["u"]) == u and "flag_set" in op]
                c["threads"][t] = [op for op in c["threads"][t] if tuple(op["u"]) != u]
                for ops in c["threads"]:
                    for op in ops:
                        if op.get("flag_wait") in gone:
                            del op["flag_wait"]
                yield c, variant
        for key in ("warm", "early"):
            for j in reversed(range(len(case[key]))):
                c = copy.deepcopy(case)
                del c[key][j]
                yield c, variant
        for c, v in common.generic_shrink({**case, "threads": []}, variant):
            c = dict(c)
            c["threads"] = case["threads"]
            yield c, v


def strip(ops):
    return [{k: x for k, x in op.items() if not k.startswith("flag_")} for op in ops]


def between(lo, hi):
    out = [[]]
    for a, b in zip(lo, hi):
        out = [p + [n] for p in out for n in range(a, b + 1)]
    return out
