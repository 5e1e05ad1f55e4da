"""Operations of the workloads: calls with good and bad documents, per-call options, callbacks."""
from __future__ import annotations

import json
import random

from . import gen, world as W
from .forkrun import in_child

TEXT = ("json", "yaml", "toml")


# -- documents -----------------------------------------------------------------------------------


def similar(v, rng):
    """Another value of the same kind."""
    if isinstance(v, bool):
        return not v
    if isinstance(v, (int, float)):
        return v + rng.choice([1, 1, -1, 2])
    if isinstance(v, str):
        return v + "x" if rng.random() < 0.5 else v[:-1] + chr(ord(v[-1]) + 1) if v else "y"
    return v


def mutate(obj, rng, depth=0):
    """One small structural change of a plain document."""
    if isinstance(obj, dict) and obj:
        keys = list(obj)
        k = rng.choice(keys)
        x = rng.random()
        if depth > 4 or x < 0.6:
            new = dict(obj)
            new[k] = mutate(obj[k], rng, depth + 1)
            return new
        if x < 0.75:
            new = dict(obj)
            if rng.random() < 0.5:
                del new[k]
                return new
            # written by a version that uses an alias, or by two versions
            base = str(k).removeprefix("al_")
            v = new.pop(k)
            for name in rng.sample([base, "al_" + base, "AL_" + base], rng.choice([1, 2, 2, 3])):
                new[name] = v if rng.random() < 0.5 else similar(v, rng)
            return new
        if x < 0.85:
            new = dict(obj)
            new["unknown_key"] = 1
            return new
        if len(keys) > 1:
            k2 = rng.choice(keys)
            new = dict(obj)
            new[k], new[k2] = obj[k2], obj[k]
            return new
        return {"other": obj[k]}
    if isinstance(obj, (list, tuple)) and obj:
        x = rng.random()
        new = list(obj)
        i = rng.randrange(len(new))
        if x < 0.7:
            new[i] = mutate(new[i], rng, depth + 1)
        elif x < 0.85:
            del new[i]
        else:
            new.append(new[i])
        return new
    return rng.choice([None, "zz", 77777, -1, [], {}, 1.5, True, ["a"], {"k": None}])


def sparse(obj, rng, depth=0):
    """The document of a writer that leaves things out: one, or about a third of all."""
    if isinstance(obj, dict) and obj and depth < 5 and (depth or rng.random() < 0.6):
        k = rng.choice(list(obj))
        if isinstance(obj[k], (dict, list)) and obj[k] and rng.random() < 0.3:
            return {**obj, k: sparse(obj[k], rng, depth + 1)}
        return {x: v for x, v in obj.items() if x != k}
    if depth and isinstance(obj, list) and obj:
        i = rng.randrange(len(obj))
        return obj[:i] + [sparse(obj[i], rng, depth + 1)] + obj[i + 1:]
    if isinstance(obj, dict):
        return {k: sparse(v, rng) for k, v in obj.items() if rng.random() < 0.7}
    if isinstance(obj, list):
        return [sparse(v, rng) for v in obj]
    return obj


def altered(op, doc):
    """The document as changed on its way in a "rt" operation."""
    if op.get("drop") is not None:
        doc = sparse(doc, random.Random(op["drop"]))
    if op.get("mut") is not None:
        doc = mutate(doc, random.Random(op["mut"]))
    return doc


def raw_dump(fmt, obj):
    if fmt in ("dict", "tuple"):
        return obj
    if fmt == "json":
        return json.dumps(obj, default=str)
    if fmt in ("msgpack", "msgpackt"):
        import msgpack

        return msgpack.packb(obj, default=str)
    if fmt == "yaml":
        import yaml

        return yaml.safe_dump(json.loads(json.dumps(obj, default=str)), sort_keys=False)
    if fmt == "toml":
        import tomli_w

        return tomli_w.dumps(json.loads(json.dumps(obj, default=str)))
    import pickle

    return pickle.dumps(obj)


def doc_child(world, d):
    op = {"k": "ser", "fmt": d["fmt"], "v": d["v"], "c": d.get("c"), "o": d.get("o")}
    if d.get("mut") is not None or d.get("drop") is not None:
        op2 = dict(op, fmt="tuple" if d["fmt"] in ("tuple", "msgpackt") else "dict")
        r, obj = world.run_op(op2, raw=True)
        if r[0] == "ok":
            try:
                return W.dump_blob(raw_dump(d["fmt"], altered(d, obj)))
            except Exception:
                pass
    r, obj = world.run_op(op, raw=True)
    return W.dump_blob(obj) if r[0] == "ok" else None


def attach_docs(world, case):
    """Compute case["docs_from"], each in a pristine fork, and make the documents available by name."""
    df = case.get("docs_from")
    if not df:
        return
    for name, d in df.items():
        b = in_child(doc_child, world, d)
        if b is None:
            b = {"s": "{}"}
        world.ns[name] = world.docs[name] = W.load_blob(b, world)


def de_opts(rng, fmt):
    x = rng.random()
    if fmt == "json" and x < 0.15:
        return {"coerce_numbers": False}
    if fmt in ("dict", "tuple") and x < 0.1:
        return {"reuse_instances": rng.choice([True, False])}
    if fmt in ("dict", "tuple") and x < 0.2:
        return {"deserialize_numbers": rng.choice(["=to_num", "=float"])}
    return {}


class OpGen:
    """Random calls over a set of types; values and documents may be shared between threads."""

    def __init__(self, rng, case, types, *, fmts=None, bad=0.15, share=0.5, weights=(4, 5, 1), depth=3, sparse=0.15):
        self.rng = rng
        self.case = case
        self.types = types  # [(Ty, cexpr or None, need_c)]
        self.fmts = fmts
        self.bad = bad
        self.sparse = sparse
        self.share = share
        self.weights = weights
        self.depth = depth
        case.setdefault("shared", {})
        case.setdefault("docs_from", {})
        self.made_docs = []
        self.made_vals = {}

    def value(self, ty):
        rng = self.rng
        old = self.made_vals.setdefault(ty.src, [])
        if old and rng.random() < self.share:
            return rng.choice(old)
        v = ty.val(rng, self.depth)
        if rng.random() < self.share:
            name = f"v{len(self.case['shared'])}"
            self.case["shared"][name] = v
            old.append(name)
            return name
        return v

    def op(self, pick=None):
        rng = self.rng
        ty, c, need_c = pick or rng.choice(self.types)
        fmt = gen.pick_fmt(rng, self.fmts)
        k = rng.choices(["ser", "de", "rt"], self.weights)[0]
        ce = c if (need_c or (c and rng.random() < 0.7)) else None
        t = c or ty.src
        if k == "ser":
            return {"k": "ser", "fmt": fmt, "v": self.value(ty), "c": ce, "o": gen.ser_opts(rng, fmt)}
        if k == "rt":
            op = {"k": "rt", "fmt": fmt, "v": self.value(ty), "c": ce, "t": t}
            if fmt == "dict" and rng.random() < self.sparse:
                op["drop"] = rng.randrange(1 << 30)
            return op
        same = [x for x in self.made_docs if x[2] == t]
        if same and rng.random() < self.share:
            name, fmt, _, o = rng.choice(same)
        else:
            name = f"d{len(self.case['docs_from'])}"
            d = {"fmt": fmt, "v": self.value(ty), "c": ce}
            if rng.random() < self.bad:
                d["mut"] = rng.randrange(1 << 30)
            elif fmt != "tuple" and rng.random() < self.sparse:
                d["drop"] = rng.randrange(1 << 30)
            o = {}
            if fmt in TEXT and len(d) == 3 and rng.random() < 0.06:  # parsed by the user's own code
                d["o"] = {"se": "=HookSe"}
                o = {"de": "=HookDe"}
            self.case["docs_from"][name] = d
            self.made_docs.append((name, fmt, t, o))
        return {"k": "de", "fmt": fmt, "c": t, "d": name, "o": {**de_opts(rng, fmt), **o}}


def targets(rng, s, classes, generic=True):
    """Types to call with: classes, containers, unions under several taggings, std types."""
    out = []
    for c in classes:
        out.append((c.ty(), None if rng.random() < 0.6 else c.name, False))
    for c in classes:
        if rng.random() < 0.6:
            ty = gen.wrap_target(rng, c.ty())
            out.append((ty, ty.src, False))
    for _ in range((rng.randrange(1, 4) if s.stress == "union" else rng.randrange(0, 3)) if s.unions else 0):
        arms = [rng.choice(classes).ty() if rng.random() < 0.7 else s.leaf() for _ in range(rng.randrange(2, 4))]
        u = gen.t_union(arms)
        if u.kind != "union":
            continue
        tag = rng.choice(["{}", "ExternalTagging({})", "InternalTagging('type', {})", "InternalTagging('type', {})",
                          "AdjacentTagging('t', 'c', {})", "Untagged({})"])
        if "Untagged" in tag and not s.untagged_ok(u.refs):
            tag = "{}"
        out.append((u, tag.format(u.src), True))
    if rng.random() < 0.3:
        t = rng.choice(gen.STD)
        out.append((t, t.src, False))
    return out
