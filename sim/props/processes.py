"""C14: what one process writes, another reads back equal."""
from __future__ import annotations

import copy
import json
import os
import random
import re
import subprocess
import sys

from .. import boot, common, engine, gen, world as W
from ..canon import canon, freeze
from ..common import Prop, Skip, cut, h
from ..forkrun import ChildError, in_child
from ..ops import OpGen, doc_child, raw_dump, targets
from .first_use import parts

PARTNERS = [{"hashseed": 5, "orjson": False, "tz": "JST-9", "cwd": "/usr"}, {"hashseed": 77, "orjson": True, "tz": "EST5EDT"},
            {"hashseed": 123456, "orjson": False, "cwd": "/"}]
HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


class Partner:
    """Another process with its own hash seed and JSON backend; forks once per job."""

    def __init__(self, pid, env):
        e = boot.reexec_pinned(env["hashseed"], env["orjson"])
        e.pop("VERIF_KNOWN", None)
        e["TZ"] = env.get("tz", "UTC0")
        self.p = subprocess.Popen([sys.executable, "-B", "-m", "sim.shard", "partner", pid, json.dumps(env)], cwd=env.get("cwd", HERE),
                                  env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE, preexec_fn=boot.no_aslr)

    def ask(self, req):
        try:
            self.p.stdin.write(json.dumps(req).encode() + b"\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
            res = json.loads(line)
        except (OSError, ValueError) as e:
            raise ChildError(f"partner process: {e!r}")
        if res[0] != "ok":
            raise ChildError(f"in partner: {res[1]}")
        return res[1]


def plain(fmt, doc):
    """The document parsed by the format's own parser."""
    if fmt == "json":
        return json.loads(doc)
    if fmt in ("msgpack", "msgpackt"):
        import msgpack

        return msgpack.unpackb(doc, raw=False, use_list=True, strict_map_key=False)
    if fmt == "yaml":
        import yaml

        return yaml.safe_load(doc)
    if fmt == "toml":
        import tomllib

        return tomllib.loads(doc)
    if fmt == "pickle":
        import pickle

        return pickle.loads(doc)
    return doc


def unordered(c):
    """Canonical form with the elements of every list sorted (set elements have no order in a document)."""
    if isinstance(c, list):
        return sorted((unordered(x) for x in c), key=repr)
    return c


def doc_form(fmt, doc, sets):
    if sets or fmt in ("pickle", "dict", "tuple"):
        c = canon(plain(fmt, doc))
        return unordered(c) if sets else c
    return canon(doc)


def exact(c):
    """Comparable form that ignores the order of dictionary items (YAML sorts keys)."""
    def f(c):
        if isinstance(c, list):
            if c and c[0] == "dict":
                return ["dict", sorted((f(x) for x in c[1]), key=repr)]
            if c and c[0] == "defaultdict":
                return ["defaultdict", c[1], sorted((f(x) for x in c[2]), key=repr)]
            return [f(x) for x in c]
        return c
    return freeze(f(c))


def ballast(seed):
    """Moves the addresses of everything allocated afterwards."""
    rng = random.Random(seed)
    xs = [[None] * rng.randrange(1, 40) if rng.random() < 0.5 else type("B", (), {}) for _ in range(rng.randrange(300))]
    rng.shuffle(xs)
    return xs[: len(xs) // 2]


class Processes(Prop):
    id = "C14"
    quick_cases = 4000
    level = "exploration"
    technique = ("deterministic simulation: pairs of processes with seeded hash seed, object layout, backend, preparation "
                 "history and thread schedule exchange documents")
    nontrivial_key = "exchanges"
    rule = (
        "a case is a module, values with formats and options, and two process configurations; each process first "
        "plays its own history and then writes all values in seeded concurrent threads; every document is read by the "
        "other process; non-trivial when a document crossed, distinct by document content and configurations"
    )
    level_note = (
        "Seeded search over pairs of process configurations. Decoding in the other process must give what a pristine "
        "process gives for its own document, and the original value where the declarations allow an exact round trip; "
        "documents of the same backend must be identical except for the order of set elements."
    )
    assumptions = ["integers fit 64 bits and floats are finite (the two JSON backends differ beyond that)"]
    partners: dict = {}

    # -- generation ---------------------------------------------------------------------------
    def make(self, rng, tier):
        s = gen.Schema(rng)
        s.untag = False
        s.clean = rng.random() < 0.5
        if rng.random() < 0.5:
            s.mutdefaults = 0.05
        classes = []
        # (undecorated classes: known finding nested-plain-check)
        deco = rng.random() < 0.4
        for i in range(rng.randrange(1, 6)):
            base = rng.choice(classes) if classes and rng.random() < 0.15 else None
            pl = base.plain if base else rng.random() < 0.5 and not deco
            classes.append(s.new_class(plain=pl, pool=classes[:] if rng.random() < 0.7 else [], base=base,
                                       codecs=rng.random() < 0.5, opts=None if rng.random() < 0.6 else []))
        case = {"modules": [{"name": "wl_m", "parts": parts(s)}], "shared": {}, "docs_from": {}, "threads": [],
                "fine": False}
        tg = targets(rng, s, classes)
        if rng.random() < 0.3:
            g = s.generic_class(plain=not deco)
            case["modules"][0]["parts"] = parts(s)
            ty = s.generic_ty(g, rng.choice(gen.PRIMS))
            tg.append((ty, ty.src, False))
        for _ in range(rng.randrange(0, 3)):  # sets and dictionaries at the top
            t = gen.t_set(rng.choice(gen.PRIMS[:2] + gen.STD + gen.ENUMS), rng)
            tg.append((gen.t_seq(t, rng) if rng.random() < 0.3 else t, None, False))
        if len(classes) > 1 and rng.random() < 0.5:
            arms = [c.ty() for c in rng.sample(classes, 2)]
            for a in (arms, arms[::-1]):
                u = gen.t_union(a)
                tag = rng.choice(["{}", "InternalTagging('type', {})", "Untagged({})", "AdjacentTagging('t', 'c', {})"])
                if "Untagged" in tag and not s.untagged_ok(u.refs):
                    tag = "{}"
                tg.append((u, tag.format(u.src), True))
        items = []
        for _ in range(rng.randrange(3, 9)):
            ty, c, need = rng.choice(tg)
            fmt = gen.pick_fmt(rng)
            ce = c if need or (c and rng.random() < 0.7) else None
            o = {} if s.clean and rng.random() < 0.7 else gen.ser_opts(rng, fmt, False)
            items.append({"fmt": fmt, "v": ty.val(rng, 3), "c": ce, "t": c or ty.src, "o": o,
                          "exact": s.clean and not need and not o,
                          "mut": rng.randrange(1 << 30) if deco else None})
        case["items"] = items
        case["clean"] = s.clean
        runs = []
        for _ in range(2):
            sides = []
            for _ in "ab":
                tmp = {"shared": {}, "docs_from": {}}
                og = OpGen(rng, tmp, tg, bad=0.0, share=0.0, weights=(1, 0, 1), depth=2)
                sides.append({"prelude": [og.op() for _ in range(rng.randrange(0, 5))],
                              "threads": rng.choice([1, 1, 2, 3]), "ballast": rng.randrange(1 << 30),
                              "rng": rng.randrange(1 << 30), "seed": rng.randrange(1 << 30),
                              "sched": rng.choice(common.SCHED_KINDS)})
            runs.append({"sides": sides, "partner": rng.randrange(len(PARTNERS))})
        case["runs"] = runs
        return case

    # -- the two processes --------------------------------------------------------------------
    def partner(self, k):
        return self.partners[k]

    def ready(self, case):
        """In the worker itself: its forks use the partners it started."""
        for k in {r["partner"] for r in case["runs"]}:
            p = self.partners.get(k)
            if p is None or p.p.poll() is not None:
                self.partners[k] = Partner(self.id, PARTNERS[k])

    def execute(self, case, stats):
        self.ready(case)
        return super().execute(case, stats)

    def replay(self, case, variant):
        self.ready(case)
        return super().replay(case, variant)

    def serve(self, req):
        """In the partner process."""
        return self.side_run(req["case"], req["side"], req.get("docs"))

    def side_run(self, case, side, docs):
        def f():
            return json.dumps(self.side_proc(case, side, docs), default=str)

        return json.loads(in_child(f))

    def side_proc(self, case, side, docs):
        """Play the side's history, then write all values (docs None) or read the documents given."""
        keep = ballast(side["ballast"])
        n = len(case["items"])
        if docs is not None:  # the second half are foreign documents
            case = dict(case, items=case["items"] * 2)
        c = dict(case, rng=side["rng"])
        world = self.load(c)
        for i, it in enumerate(case["items"][:n]):
            world.ns[f"_v{i}"] = world.ev(it["v"])
        threads = [[] for _ in range(side["threads"])]
        for i, op in enumerate(side["prelude"]):
            threads[i % len(threads)].append(op)
        where = {}
        for i, it in enumerate(case["items"]):
            t = threads[i % len(threads)]
            if docs is None:
                t.append({"k": "ser", "fmt": it["fmt"], "v": f"_v{i}", "c": it["c"], "o": it["o"]})
            elif docs[i] is None:
                continue
            else:
                world.ns[f"_d{i}"] = W.load_blob(docs[i], world)
                t.append({"k": "de", "fmt": it["fmt"], "c": it["t"], "d": f"_d{i}"})
            where[i] = (i % len(threads), len(t) - 1)
        strat = engine.make_strategy({"kind": side["sched"]}, random.Random(side["seed"]), 1500, len(threads)) \
            if len(threads) > 1 else engine.Solo()
        sim, outs = W.run_threads(world, dict(c, threads=threads), strat)
        del keep
        return self.report(case, world, sim, outs, where, docs is None)

    def report(self, case, world, sim, outs, where, writing):
        res = {"verdict": sim.verdict, "detail": sim.detail, "steps": sim.step, "switches": len(sim.switches), "items": {}}
        world.quiet += 1
        for i, (t, j) in where.items():
            if j >= len(outs[t]):
                continue
            o = outs[t][j]
            if o[0] == "err":
                o = o[:1] + [o[1][1]]
                res["items"][i] = [o, None, None]
                continue
            fmt = case["items"][i]["fmt"]
            obj = sim.raws[t][j]
            if writing:
                # (the order of a set's elements in the text is the set's own iteration order)
                sets = "set" in case["items"][i]["t"] or "set'" in repr(canon(world.ev(case["items"][i]["v"])))
                res["items"][i] = [["ok"], W.dump_blob(obj), doc_form(fmt, obj, sets)]
            else:
                res["items"][i] = [["ok"], None, canon(obj)]
        world.quiet -= 1
        return res

    def pristine(self, case):
        """Each value written and read alone, in this process's configuration."""
        try:
            world = self.load(case)
            for it in case["items"]:
                world.ev(it["v"])
        except Exception as e:
            return str(e)[:100]
        out = []
        for i, it in enumerate(case["items"]):
            out.append(json.loads(in_child(self.pristine_item, world, case, i)))
        return out

    def pristine_item(self, world, case, i):
        it = case["items"][i]
        world.ns["_v"] = v = world.ev(it["v"])
        cv = canon(v)
        w = {"k": "ser", "fmt": it["fmt"], "v": "_v", "c": it["c"], "o": it["o"]}
        sim, outs = W.run_threads(world, dict(case, threads=[[w]]), engine.Solo())
        r1 = self.report(case, world, sim, outs, {i: (0, 0)}, True)["items"][i]
        r2 = None
        if r1[0] == ["ok"]:
            world.ns["_d"] = W.load_blob(r1[1], world)
            d = {"k": "de", "fmt": it["fmt"], "c": it["t"], "d": "_d"}
            sim, outs = W.run_threads(world, dict(case, threads=[[d]]), engine.Solo())
            r2 = self.report(case, world, sim, outs, {i: (0, 0)}, False)["items"][i]
        foreign = r3 = None
        if it.get("mut") is not None:
            foreign = doc_child(world, {"fmt": it["fmt"], "v": "_v", "c": it["c"], "mut": it["mut"]})
        if foreign is not None:
            # (which elements of a container a strict class checks depends on the random numbers)
            r3 = {}
            for rv in sorted({s["rng"] for r in case["runs"] for s in r["sides"]}):
                engine.RNGVAL[0] = rv
                world.ns["_d"] = W.load_blob(foreign, world)
                d = {"k": "de", "fmt": it["fmt"], "c": it["t"], "d": "_d"}
                sim, outs = W.run_threads(world, dict(case, threads=[[d]]), engine.Solo())
                r3[str(rv)] = self.report(case, world, sim, outs, {i: (0, 0)}, False)["items"][i]
        return json.dumps([r1, r2, cv, foreign, r3])

    # -- runs ---------------------------------------------------------------------------------
    def run_case(self, case, variant, st):
        base = in_child(self.pristine, case)
        if isinstance(base, str):
            raise Skip(base)
        items = case["items"]
        st.add("items", len(items))
        n = sum(1 for b in base if b[1] and b[1][0] == ["ok"])
        st.add("items_ok", n)
        st.add("items_exact", sum(1 for b in base if b[1] and b[1][0] == ["ok"] and b[1][2] == b[2]))
        if not n:
            raise Skip("nothing can be written")
        for it, (w, r, cv, _, _) in zip(items, base):
            if it["exact"] and w[0] == ["ok"] and not self.inexact(case, it) and exact(r[2]) != exact(cv):
                return {"what": f"{it}: written as {cut(w[2])}, read back in the same process as "
                                f"{cut(r[2] if r[0] == ['ok'] else r[0])}", "case": case, "variant": {"run": 0}}
        for k in [variant["run"]] if variant is not None else range(len(case["runs"])):
            run = case["runs"][k]
            bad = self.exchange(case, run, base, st)
            if bad:
                return {"what": bad, "case": case, "variant": {"run": k}}
        return None

    def inexact(self, case, it):
        """Declarations with which a value does not come back exactly as a matter of course."""
        src = "".join(case["modules"][0]["parts"][1:])
        return ("alias=" in src and (it["fmt"] in ("tuple", "msgpackt") or "rename_all" in src)) or "flatten=" in src \
            or "legacy" in src or "Union[None" in src \
            or (it["fmt"].startswith("msgpack") and re.search(r"dict\[(int|Level|Perm)", src + it["t"]))

    def exchange(self, case, run, base, st):
        a, b = run["sides"]
        mine = self.info["env"]
        items = case["items"]
        other = PARTNERS[run["partner"]]
        p = self.partner(run["partner"])
        slim = {k: v for k, v in case.items() if k != "runs"}
        wa = norm(self.side_run(slim, a, None))
        wb = norm(p.ask({"case": slim, "side": b}))
        docs_a = [wa["items"].get(i, [0, None])[1] for i in range(len(case["items"]))]
        docs_b = [wb["items"].get(i, [0, None])[1] for i in range(len(case["items"]))]
        foreign = [b_[3] for b_ in base]
        ra = norm(self.side_run(slim, a, docs_b + foreign))
        rb = norm(p.ask({"case": slim, "side": b, "docs": docs_a + foreign}))
        names = {"A": f"process A (hash seed {mine.get('hashseed')}, orjson {mine.get('orjson')})",
                 "B": f"process B (hash seed {other['hashseed']}, orjson {other['orjson']})"}
        st.add("runs")
        for r in (wa, wb, ra, rb):
            st.add("steps", r["steps"])
            st.add("switches", r["switches"])
            if r["verdict"] == "harness":
                raise engine.HarnessError(r["detail"])
            if r["verdict"]:
                return f"{r['verdict']}: {r['detail']}"
        st.add("config_orjson" if other["orjson"] != mine.get("orjson") else "config_same_backend")
        st.add("config_threads", int(a["threads"] > 1) + int(b["threads"] > 1))
        for i, it in enumerate(case["items"]):
            w0, r0, cv, _, fs = base[i]
            same = it["fmt"] != "json" or other["orjson"] == mine.get("orjson")
            for s, w in (("A", wa), ("B", wb)):
                x = w["items"][i]
                if x[0] != w0[0] and (same or s == "A"):
                    return f"{it}: writing in {names[s]} gives {x[0]}; in a pristine process {w0[0]}"
                if x[0] == ["ok"] and (same or s == "A") and freeze(x[2]) != freeze(w0[2]):
                    return f"{it}: {names[s]} writes {cut(x[2])}; a pristine process with the same backend writes {cut(w0[2])}"
            for s, o, r in (("A", "B", ra), ("B", "A", rb)):
                x = r["items"].get(i)
                if x is None or r0 is None:
                    continue
                if x[0] != r0[0] or freeze(x[2]) != freeze(r0[2]):
                    return (f"{it}: {names[s]} reads the document of {names[o]} as {cut(x[2] if x[0] == ['ok'] else x[0])}; "
                            f"a pristine process reads its own as {cut(r0[2] if r0[0] == ['ok'] else r0[0])}")
                st.add("documents_exchanged")
                st.seen("exchanges", h([it, a["seed"], b["seed"], run["partner"]]))
            for s, r, side in (("A", ra, a), ("B", rb, b)):
                x = r["items"].get(len(items) + i)
                if x is None or fs is None:
                    continue
                f0 = fs[str(side["rng"])]
                st.add("foreign_documents")
                st.add("foreign_documents_accepted", int(f0[0] == ["ok"]))
                if x[0] != f0[0] or freeze(x[2]) != freeze(f0[2]):
                    return (f"{it}: {names[s]} reads a foreign document as {cut(x[2] if x[0] == ['ok'] else x[0])}; "
                            f"a pristine process reads it as {cut(f0[2] if f0[0] == ['ok'] else f0[0])}")
        return None

    def shrink(self, case, variant):
        k = variant["run"]
        if len(case["runs"]) > 1:
            yield dict(case, runs=[case["runs"][k]]), {"run": 0}
            return
        for i in range(len(case["items"])):
            if len(case["items"]) > 1:
                yield dict(case, items=case["items"][:i] + case["items"][i + 1:]), variant
        for s in (0, 1):
            pre = case["runs"][k]["sides"][s]["prelude"]
            for i in range(len(pre)):
                c = copy.deepcopy(case)
                del c["runs"][k]["sides"][s]["prelude"][i]
                yield c, variant
            if case["runs"][k]["sides"][s]["threads"] > 1:
                c = copy.deepcopy(case)
                c["runs"][k]["sides"][s]["threads"] -= 1
                yield c, variant
        for mi, m in enumerate(case["modules"]):
            for p in reversed(range(1, len(m["parts"]))):
                c = copy.deepcopy(case)
                del c["modules"][mi]["parts"][p]
                yield c, variant


def norm(r):
    r["items"] = {int(k): v for k, v in r["items"].items()}
    return r
