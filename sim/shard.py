"""
One simulation worker process.  Runs cases i = shard, shard + nshards, ... and prints JSON lines.

    python -m sim.shard run PROP TIER SEED SHARD NSHARDS NCASES DEADLINE_S
    python -m sim.shard replay PROP FILE
"""
from __future__ import annotations

import json
import os
import random
import sys
import time
import traceback

NSHARDS = 8


def variant_of(shard):
    """Process environment of a shard: fixed by its number, so results do not depend on the host."""
    return {"hashseed": [0, 1, 2, 3, 1234, 99, 7, 4000000][shard % 8], "orjson": shard % 4 == 3}


def get_prop(pid):
    from . import registry

    return registry.get(pid)


def emit(o, out=None):
    sys.stdout.write(json.dumps(o, default=str) + "\n")
    sys.stdout.flush()


def case_seed(seed, pid, i):
    return f"{seed}:{pid}:{i}"


def make_case(prop, seed, i, tier):
    s = case_seed(seed, prop.id, i)
    case = prop.make(random.Random(s), tier)
    case["seed"] = s
    return case


def main():
    mode, pid = sys.argv[1], sys.argv[2]
    from . import boot

    boot.boot()
    from . import common
    from .forkrun import ChildError

    prop = get_prop(pid)
    if mode == "partner":  # serves the other process of a pair, one JSON line per request
        prop.setup({"tier": "quick", "env": json.loads(sys.argv[3])})
        for line in sys.stdin:
            try:
                emit(["ok", prop.serve(json.loads(line))])
            except BaseException as e:
                emit(["exc", "".join(traceback.format_exception(e))[-3000:]])
        return 0
    if mode == "replay":
        with open(sys.argv[3]) as f:
            rp = json.load(f)
        prop.setup({"tier": "quick", "env": rp.get("env", {})})
        r = prop.replay(rp["case"], rp["variant"])
        emit({"replayed": bool(r), "what": r["what"] if r else None})
        return 0
    tier, seed, shard, nshards, ncases, deadline = (
        sys.argv[3], int(sys.argv[4]), int(sys.argv[5]), int(sys.argv[6]), int(sys.argv[7]), float(sys.argv[8]),
    )
    t0 = time.monotonic()
    prop.setup({"tier": tier, "env": variant_of(shard), "shard": shard})
    done = 0
    slowest = (0.0, 0)
    timeouts = 0
    errors = []
    stats = common.Stats()
    known = set(json.loads(os.environ.get("VERIF_KNOWN", "[]")))
    log = os.environ.get("VERIF_LOG")
    for i in range(shard, ncases, nshards):
        if time.monotonic() - t0 > deadline:
            break
        t1 = time.monotonic()
        case = make_case(prop, seed, i, tier)
        try:
            viol = prop.execute(case, stats)
        except ChildError as e:
            if "exceeded its wall time" in str(e) and timeouts < 2:  # a busy machine says nothing about the property
                timeouts += 1
                stats.add("timeouts")
                continue
            errors.append(f"case {i}: {e}")
            if len(errors) > 5:
                break
            continue
        except Exception:
            errors.append(f"case {i}: " + traceback.format_exc()[-2000:])
            if len(errors) > 5:
                break
            continue
        finally:
            slowest = max(slowest, (time.monotonic() - t1, i))
        done += 1
        if log:
            with open(f"{log}.{shard}", "a") as f:
                f.write(json.dumps({"i": i, "viol": viol["what"] if viol else None, "c": common.h(case), "s": common.h(stats.out())}) + "\n")
        if viol:
            first = viol
            c, v, what, tried = common.minimise(prop, viol["case"], viol["variant"], viol["what"],
                                                budget=float(os.environ.get("VERIF_SHRINK", "20")))
            emit({"violation": {"what": what, "case": c, "variant": v, "i": i, "shrink_tried": tried,
                                "original_what": first["what"], "env": variant_of(shard)},
                  "original": {"case": first["case"], "variant": first["variant"], "what": first["what"]}})
            if os.environ.get("VERIF_KEEP_GOING") != "1":
                break
    emit({"end": True, "done": done, "errors": errors, "stats": stats.out(), "slowest": slowest,
          "wall": time.monotonic() - t0})
    return 0


if __name__ == "__main__":
    # `python -m sim.shard`: the worker runs with a fixed environment set by the coordinator
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
