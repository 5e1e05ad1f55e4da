"""C09: damaged documents are rejected or decode to well-typed objects."""
from __future__ import annotations

import copy
import json
import random

from .. import common, engine, gen, world as W
from ..canon import canon, canon_exc, freeze
from ..common import Prop, Skip, cut, h
from ..conform import bad_field, conforms
from ..forkrun import in_child
from ..ops import OpGen, doc_child, mutate, raw_dump, targets
from ..reach import children, walk
from .first_use import parts

FMTS = ["json", "msgpack", "msgpackt", "yaml", "toml", "dict", "tuple", "pickle"]


# -- faults of storage and transport ---------------------------------------------------------------


def damage(rng, doc, other, fmt):
    """-> (kind, damaged document).  doc/other: bytes of two documents of the same format."""
    n = len(doc)
    kinds = ["truncate", "tear", "flip", "flip", "zero", "lose", "dup", "swap", "splice", "head", "insert"]
    if fmt == "pickle":  # anything else would execute arbitrary code in the unpickler
        kinds = ["truncate"]
    k = rng.choice(kinds)
    sec = rng.choice([1, 1, 2, 4, 8, 16, 64])
    nsec = max(1, (n + sec - 1) // sec)
    if k == "truncate":
        return k, doc[: rng.randrange(n)] if n else doc
    if k == "head":
        return k, doc[rng.randrange(1, n):] if n > 1 else b""
    if k == "tear":  # first part new, rest of the old file
        c = rng.randrange(nsec + 1) * sec
        return k, doc[:c] + other[c:]
    if k == "splice":
        return k, doc[: rng.randrange(n + 1)] + other[rng.randrange(len(other) + 1):]
    if k == "flip":
        b = bytearray(doc)
        for _ in range(rng.choice([1, 1, 2, 5])):
            if b:
                i = rng.randrange(len(b))
                if rng.random() < 0.5:
                    b[i] ^= 1 << rng.randrange(8)
                else:  # an error that keeps the text readable
                    b[i] = rng.choice(b"0123456789abz\"'[]{}:,.-+ \n#&*|>!%@`=truefalsenull")
        return k, bytes(b)
    i = rng.randrange(nsec) * sec
    if k == "zero":
        return k, doc[:i] + b"\0" * len(doc[i:i + sec]) + doc[i + sec:]
    if k == "lose":
        return k, doc[:i] + doc[i + sec:]
    if k == "dup":
        return k, doc[:i] + doc[i:i + sec] * 2 + doc[i + sec:]
    if k == "insert":
        return k, doc[:i] + bytes(rng.randrange(256) for _ in range(rng.randrange(1, 4))) + doc[i:]
    j = rng.randrange(nsec) * sec
    i, j = min(i, j), max(i, j)
    return "swap", doc[:i] + doc[j:j + sec] + doc[i + sec:j] + doc[i:i + sec] + doc[j + sec:]


def nodes(o, path=()):
    out = [path]
    if isinstance(o, dict):
        for k in o:
            out += nodes(o[k], path + (k,))
    elif isinstance(o, (list, tuple)):
        for i, x in enumerate(o):
            out += nodes(x, path + (i,))
    return out


def get(o, p):
    for k in p:
        o = o[k]
    return o


def put(o, p, v):
    if not p:
        return v
    if isinstance(o, dict):
        return {k: put(x, p[1:], v) if k == p[0] else x for k, x in o.items()}
    return [put(x, p[1:], v) if i == p[0] else x for i, x in enumerate(o)]


def tree_damage(rng, obj, other):
    """Values lost, moved, exchanged or replaced; documents spliced at value boundaries."""
    k = rng.choice(["mutate", "mutate", "mutate", "exchange", "graft", "graft", "shuffle"])
    if k == "mutate":
        for _ in range(rng.choice([1, 1, 2, 3])):
            obj = mutate(obj, rng)
    elif k == "exchange":
        ps = nodes(obj)
        a, b = rng.choice(ps), rng.choice(ps)
        va, vb = get(obj, a), get(obj, b)
        if a[: len(b)] != b and b[: len(a)] != a:
            obj = put(put(obj, a, vb), b, va)
        else:
            obj = put(obj, max(a, b, key=len), None)
    elif k == "graft":
        obj = put(obj, rng.choice(nodes(obj)), get(other, rng.choice(nodes(other))))
    else:
        if isinstance(obj, dict):
            ks = list(obj)
            vs = list(obj.values())
            rng.shuffle(vs)
            obj = dict(zip(ks, vs))
        elif isinstance(obj, (list, tuple)):
            obj = rng.sample(list(obj), len(obj))
    return k, obj


def raw_error(fmt, doc, orjson):
    """The parser's own verdict on the document: exception or None."""
    try:
        if fmt == "json":
            if orjson:
                import orjson as oj

                oj.loads(doc)
            else:
                json.loads(doc)
        elif fmt in ("msgpack", "msgpackt"):
            import msgpack

            msgpack.unpackb(doc, raw=False, use_list=False)
        elif fmt == "yaml":
            import yaml

            yaml.safe_load(doc)
        elif fmt == "toml":
            import tomllib

            tomllib.loads(doc)
        elif fmt == "pickle":
            import pickle

            pickle.loads(doc)
    except Exception as e:
        return e
    return None


class Damage(Prop):
    id = "C09"
    quick_cases = 6000
    docs_per_case = 40
    level = "fault_enumeration"
    technique = ("deterministic simulation with fault injection: seeded storage faults on documents, conformance of "
                 "every decoded object, intact document decoded after each")
    nontrivial_key = "damaged"
    rule = (
        "a case is a module of strict and coercing classes, values of them written in a format, and 40 damaged "
        "versions of the documents (truncated, torn, spliced, sectors lost, duplicated, exchanged, zeroed, bytes "
        "changed; values mutated, exchanged, grafted) that are decoded one after another; non-trivial when the "
        "damaged document differs from the intact one, distinct by its content"
    )
    level_note = (
        "Seeded storage faults. Every instance of a strict or coercing class in a decoded result must conform to its "
        "declarations by a checker written without pyserde (container elements excepted); every error must be the raw "
        "parser's on the same bytes, SerdeError, or the class's own; the intact document must still decode as before."
    )
    assumptions = ["pickle documents are only truncated: other damage is executed by the unpickler before pyserde is "
                   "involved", "fields of undecorated member classes are not looked into"]

    def make(self, rng, tier):
        s = gen.Schema(rng)
        s.deonly = True
        s.same_codec = False  # (a codec may return anything)
        classes = []
        for i in range(rng.randrange(1, 5)):
            base = rng.choice(classes) if classes and rng.random() < 0.25 else None
            plain = base.plain if base else rng.random() < 0.15
            opts = [o for o in s.class_opts(None) if not o.startswith("type_check") and "erializer" not in o]
            if rng.random() < 0.4:
                opts.append("type_check=coerce")
            c = s.new_class(plain=plain, pool=classes[:], base=base, opts=opts, hooks=True,
                            codecs=rng.random() < 0.3)
            c.mode = None if plain else "coerce" if "type_check=coerce" in opts else "strict"
            classes.append(c)
        if all(c.plain for c in classes):
            c = s.new_class(plain=False, pool=classes[:], opts=[], hooks=True)
            c.mode = "strict"
            classes.append(c)
        deco = [c for c in classes if not c.plain]
        case = {"modules": [{"name": "wl_m", "parts": parts(s)}], "shared": {}, "docs_from": {}, "threads": [],
                "fine": False, "rng": rng.randrange(1 << 30), "checked": [c.name for c in deco]}
        fmt = rng.choices(FMTS, [6, 3, 1, 2, 2, 5, 3, 0.5])[0]
        case["fmt"] = fmt
        pairs = []
        for c, ce, need in targets(rng, s, deco):
            if any(k in c.refs for k in case["checked"]) or c.kind == "cls":
                pairs.append([ce or c.src, ce if need else None, [c.val(rng, 3) for _ in range(2)]])
        pairs = rng.sample(pairs, min(3, len(pairs)))
        case["targets"] = pairs
        return case

    def run_case(self, case, variant, st):
        world = self.load(case)
        fmt = case["fmt"]
        intact = []
        for t, c, vs in case["targets"]:
            for v in vs:
                b = in_child(doc_child, world, {"fmt": fmt, "v": v, "c": c})
                o = in_child(doc_child, world, {"fmt": "tuple" if fmt in ("tuple",) else "dict", "v": v, "c": c})
                if b is None or o is None:
                    continue
                intact.append([t, c, b, o])
        if not intact:
            raise Skip("no document")
        if variant is not None:
            todo = [variant]
        else:
            todo = list(self.plan(case, intact))
        res = in_child(self.run_docs, world, case, intact, todo)
        st.add("runs", len(res["done"]))
        st.add("steps", res["steps"])
        for kind, what, changed, doc in res["done"]:
            st.add("fault_" + kind)
            st.add("outcome_" + what)
            if changed:
                st.seen("damaged", doc)
        if res["bad"]:
            return {"what": res["bad"][0], "case": case, "variant": res["bad"][1]}
        return None

    def plan(self, case, intact):
        rng = random.Random(case["seed"] + ":damage")
        for i in range(self.docs_per_case):
            a = rng.randrange(len(intact))
            b = rng.randrange(len(intact))
            byte = case["fmt"] not in ("dict", "tuple") and rng.random() < 0.55 or case["fmt"] == "pickle"
            yield {"doc": a, "other": b, "how": "bytes" if byte else "tree", "seed": f"{case['seed']}:{i}",
                   "as_bytes": rng.random() < 0.5}

    def broken(self, case, intact, v):
        """-> (kind, document) or None when the damage cannot be written in the format."""
        fmt = case["fmt"]
        rng = random.Random(v["seed"])
        d, o = intact[v["doc"]], intact[v["other"]]
        if v["how"] == "bytes":
            x, y = W.load_blob(d[2]), W.load_blob(o[2])
            text = isinstance(x, str)
            xb, yb = (z.encode() if isinstance(z, str) else z for z in (x, y))
            kind, doc = damage(rng, xb, yb, fmt)
            if text and not (fmt == "json" and v["as_bytes"]):
                doc = doc.decode(errors="replace")
            return kind, doc, doc != x
        x, y = W.load_blob(d[3]), W.load_blob(o[3])
        kind, obj = tree_damage(rng, x, y)
        try:
            return kind, raw_dump(fmt, obj), freeze(canon(obj)) != freeze(canon(x))
        except Exception:
            return None

    def run_docs(self, world, case, intact, todo):
        done = []
        bad = None
        steps = 0
        fmt = case["fmt"]
        first = {}
        types = {}
        for v in todo:
            b = self.broken(case, intact, v)
            if b is None:
                continue
            kind, doc, changed = b
            t, c, blob, _ = intact[v["doc"]]
            world.ns["_intact"] = W.load_blob(blob)
            if v["doc"] not in first:
                first[v["doc"]] = common.solo(world, case, [{"k": "de", "fmt": fmt, "c": t, "d": "_intact"}])["outs"][0]
            world.ns["_doc"] = doc
            op = {"k": "de", "fmt": fmt, "c": t, "d": "_doc"}
            c2 = dict(case, threads=[[op, dict(op, d="_intact")]])
            sim, outs = W.run_threads(world, c2, engine.Solo())
            steps += sim.step
            if sim.verdict:
                bad = (f"{sim.verdict} decoding {cut(repr(doc), 300)}: {sim.detail}", v)
                break
            obj = sim.raws[0][0]
            o, again = outs[0]
            world.quiet += 1
            if o[0] == "ok":
                what = self.check_ok(world, case, t, obj, types)
                done.append([kind, "ok", changed, h(repr(doc))])
            else:
                what = self.check_err(world, case, fmt, doc, obj)
                done.append([kind, "error", changed, h(repr(doc))])
            world.quiet -= 1
            if not what and again != first[v["doc"]]:
                what = f"afterwards the intact document gives {cut(again)}; before it gave {cut(first[v['doc']])}"
            if what:
                bad = (f"decoding the damaged ({kind}) {fmt} document {cut(repr(doc), 500)} as {t}: {what}", v)
                break
        return {"done": done, "bad": bad, "steps": steps}

    def check_ok(self, world, case, t, obj, types):
        if t not in types:
            types[t] = world.ev(t)
        ty = types[t]
        inner = getattr(ty, "inner", ty)
        what = bad_field(walk([obj]).values(), set(case["checked"]), world)
        if what:
            return f"accepted, but {what}"
        if not conforms(obj, inner):
            return f"accepted, but the result {cut(canon(obj))} is not a {t}"
        return None

    def check_err(self, world, case, fmt, doc, exc):
        import serde

        if isinstance(exc, serde.SerdeError):
            return None
        raw = raw_error(fmt, doc, self.info.get("env", {}).get("orjson"))
        if raw is not None:
            return None if type(exc) is type(raw) else \
                f"raises {canon_exc(exc)}, neither SerdeError nor the parser's {type(raw).__name__}"
        if type(exc) is ValueError and str(exc).endswith(" says no"):
            return None
        return f"raises {canon_exc(exc)}, not a SerdeError"

    def shrink(self, case, variant):
        for mi, m in enumerate(case["modules"]):
            for p in reversed(range(1, len(m["parts"]))):
                c = copy.deepcopy(case)
                del c["modules"][mi]["parts"][p]
                yield c, variant
