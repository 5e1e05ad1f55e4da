"""Shared machinery of the property checks: case processes, baselines, comparison, shrinking."""
from __future__ import annotations

import copy
import hashlib
import json
import random
import time

from . import engine, world as W
from .forkrun import ChildError, in_child

SCHED_KINDS = ["oneshot", "pct", "random", "swarm", "site", "site", "site", "site"]


def h(x) -> str:
    return hashlib.sha1(json.dumps(x, sort_keys=True, default=str).encode()).hexdigest()[:16]


class Stats:
    def __init__(self):
        self.c = {}
        self.sets = {}

    def add(self, k, n=1):
        self.c[k] = self.c.get(k, 0) + n

    def seen(self, k, v):
        self.sets.setdefault(k, set()).add(v)

    def out(self):
        return {"c": self.c, "sets": {k: sorted(v) for k, v in self.sets.items()}}


class Skip(Exception):
    """The generated case does not apply (e.g. the schema is not accepted)."""


class Prop:
    """One property.  Subclasses define make / variants / judge."""

    id = "C00"
    quick_cases = 200
    thorough_cases = 20000
    level = "exploration"
    technique = "deterministic simulation: seeded thread schedules, differential against a pristine process"
    level_note = ""
    rule = ""
    assumptions: list = []
    case_timeout = 300.0
    quick_wall = 35.0
    thorough_wall = 3600.0
    min_cases = 20
    nontrivial_key = "interleavings"

    def setup(self, info):
        """Once per worker process."""
        self.info = info

    # -- generation (pure) --------------------------------------------------------------------
    def make(self, rng, tier):
        raise NotImplementedError

    # -- execution in the shard process -------------------------------------------------------
    def execute(self, case, stats):
        """-> violation dict with a replayable (case, variant), or None."""
        res = in_child(self.case_proc, case, None, timeout=self.case_timeout)
        return self.absorb(res, stats)

    def absorb(self, res, stats):
        for k, n in res["stats"]["c"].items():
            stats.add(k, n)
        for k, v in res["stats"]["sets"].items():
            for x in v:
                stats.seen(k, x)
        return res["viol"]

    def replay(self, case, variant):
        """Re-run one (case, variant): violation or None."""
        try:
            res = in_child(self.case_proc, case, variant, timeout=self.case_timeout)
        except ChildError:
            return None
        return res["viol"]

    # -- in the case process ------------------------------------------------------------------
    def case_proc(self, case, variant):
        st = Stats()
        try:
            viol = self.run_case(case, variant, st)
        except Skip as e:
            st.add("skipped_cases")
            st.seen("skip_reasons", str(e)[:120])
            viol = None
        return {"stats": st.out(), "viol": viol}

    def load(self, case):
        w = W.World(case)
        try:
            w.load()
        except Exception as e:
            raise Skip(f"{type(e).__name__}: {str(e)[:100]}")
        return w

    def run_case(self, case, variant, st):
        raise NotImplementedError

    def shrink(self, case, variant):
        """Candidates (case, variant), smaller first."""
        return generic_shrink(case, variant)


# ---------------------------------------------------------------------------------------------


def solo(world, spec, ops, count=False, **kw):
    """Run ops one after another on one simulated thread in this process."""
    s = dict(spec)
    s["threads"] = [ops]
    rec = engine.Recorder() if count else engine.Solo()
    sim, outs = W.run_threads(world, s, rec, **kw)
    return {"outs": outs[0], "steps": sim.step, "verdict": sim.verdict, "detail": sim.detail,
            "sites": rec.sites if count else {}}


def alone(world, spec, ops):
    """solo in a fork; the world learns the code sites passed."""
    r = in_child(solo, world, spec, ops, True)
    learn(world, r)
    return r


def learn(world, r):
    """Take the code sites out of a baseline's result."""
    for k, (n, st) in r.pop("sites").items():
        s = world.sites.setdefault(tuple(k), [0, st])
        s[0] = max(s[0], n)


def sim_result(sim, outs):
    return {
        "outs": outs,
        "steps": sim.step,
        "lsteps": sim.lstep,
        "verdict": sim.verdict,
        "detail": sim.detail,
        "switches": [list(x) for x in sim.switches],
        "forced": [list(x) for x in sim.forced],
        "trace": h(sim.trace),
        "nswitch": len(sim.switches),
        "fired": [f.fired for f in sim.faults],
    }


def run_sched(world, case, variant, **kw):
    """In a forked child: run the case's threads under the variant's schedule."""
    rng = random.Random(f"{variant['seed']}")
    n = len(case["threads"])
    strat = engine.make_strategy(variant["sched"], rng, variant.get("length", 1000), n, world.sites)
    sim, outs = W.run_threads(world, case, strat, **kw)
    return sim_result(sim, outs)


def pin(variant, res):
    """The same run as an explicit schedule."""
    v = dict(variant)
    v["sched"] = {"kind": "replay", "switches": res["switches"], "forced": res["forced"]}
    return v


def cut(x, n=600):
    s = x if isinstance(x, str) else json.dumps(x, default=str)
    return s if len(s) <= n else s[:n] + "..."


class DiffProp(Prop):
    """Outcome of every operation under a schedule == its outcome alone in a pristine process."""

    schedules = 12
    baseline_mode = "op"  # or "thread"
    must_succeed = False

    def baselines(self, world, case, st):
        """-> {(t, j): outcome}, total steps"""
        base = {}
        total = 0
        memo = {}
        for t, ops in enumerate(case["threads"]):
            if self.baseline_mode == "thread":
                r = alone(world, case, ops)
                self.solo_ok(r)
                for j, o in enumerate(r["outs"]):
                    base[(t, j)] = o
                total += r["steps"]
            else:
                for j, op in enumerate(ops):
                    k = json.dumps(op, sort_keys=True)
                    if k not in memo:
                        memo[k] = alone(world, case, [op])
                        self.solo_ok(memo[k])
                    base[(t, j)] = memo[k]["outs"][0]
                    total += memo[k]["steps"]
        bad = [o for o in base.values() if o[0] == "bad"]
        if bad:
            raise Skip("bad op: " + str(bad[0])[:100])
        st.add("baseline_ops", len(base))
        st.add("baseline_ok", sum(1 for o in base.values() if o[0] == "ok"))
        return base, total

    def solo_ok(self, r):
        if r["verdict"]:
            raise Skip(f"baseline {r['verdict']}: {r['detail']}")

    def make_variants(self, case, total):
        rng = random.Random(case["seed"] + ":sched")
        for k in range(self.schedules):
            yield {
                "seed": f"{case['seed']}:{k}",
                "sched": {"kind": rng.choice(SCHED_KINDS)},
                "length": total,
            }

    def run_case(self, case, variant, st):
        world = self.load(case)
        base, total = self.baselines(world, case, st)
        variants = [variant] if variant is not None else self.make_variants(case, total)
        for v in variants:
            res = in_child(self.run_variant, world, case, v)
            self.count(st, case, v, res)
            bad = self.judge(case, v, base, res)
            if bad:
                return {"what": bad, "case": case, "variant": pin(v, res)}
        return None

    def run_variant(self, world, case, v):
        return run_sched(world, case, v)

    def count(self, st, case, v, res):
        st.add("runs")
        st.add("steps", res["steps"])
        st.add("switches", res["nswitch"])
        st.add("ops", sum(len(x) for x in res["outs"]))
        st.add("strategy_" + v["sched"]["kind"])
        if res["nswitch"]:
            st.seen("interleavings", res["trace"])

    def judge(self, case, v, base, res):
        if res["verdict"] == "harness":
            raise engine.HarnessError(res["detail"])
        if res["verdict"]:
            return f"{res['verdict']}: {res['detail']}"
        for t, outs in enumerate(res["outs"]):
            for j, o in enumerate(outs):
                b = base[(t, j)]
                if o != b:
                    return (
                        f"thread {t} op {j} {cut(case['threads'][t][j], 300)}: got {cut(o)}; alone it gives {cut(b)}"
                    )
        return None


# ---------------------------------------------------------------------------------------------
# shrinking


def generic_shrink(case, variant):
    """Drop threads, operations, source parts, schedule switches."""
    sw = variant.get("sched", {}) if variant else {}
    if sw.get("kind") == "replay":
        s = sw["switches"]
        n = len(s)
        chunk = n
        while chunk >= 1:
            for i in range(0, n, chunk):
                if chunk == n and n > 1 or chunk < n or n == 1:
                    v = copy.deepcopy(variant)
                    v["sched"]["switches"] = s[:i] + s[i + chunk :]
                    yield case, v
            chunk //= 2
    th = case.get("threads", [])
    for t in range(len(th)):
        for j in reversed(range(len(th[t]))):
            c = copy.deepcopy(case)
            del c["threads"][t][j]
            yield c, variant
    for mi, m in enumerate(case.get("modules", [])):
        if "parts" in m:
            for p in reversed(range(1, len(m["parts"]))):
                c = copy.deepcopy(case)
                del c["modules"][mi]["parts"][p]
                yield c, variant
    for k in list(case.get("shared", {})):
        c = copy.deepcopy(case)
        del c["shared"][k]
        yield c, variant


def minimise(prop, case, variant, what, budget=20.0):
    """Greedy: keep any smaller candidate that still violates the property."""
    end = time.monotonic() + budget
    improved = True
    tried = 0
    while improved and time.monotonic() < end:
        improved = False
        for c, v in prop.shrink(case, variant):
            if time.monotonic() > end:
                break
            tried += 1
            try:
                r = prop.replay(c, v)
            except BaseException:
                r = None
            if r:
                case, variant, what = r["case"], r["variant"], r["what"]
                improved = True
                break
    return case, variant, what, tried
