#!/usr/bin/env python3
"""
Run the check of one property:   check.py C01 [--tier quick|thorough] [--seed N]
Replay a recorded violation:     check.py --replay FILE

Exit 0: held on everything explored.  Exit 1: violation, with a VIOLATION line.  Exit 2: no answer.
"""
from __future__ import annotations

import argparse
import json
import os
import selectors
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from sim import boot, shard as shardmod  # noqa: E402

PY = os.environ.get("VERIF_PY", "/opt/venv/bin/python")
OUT = os.path.join(HERE, "evidence")
CMD = [PY, "-B", "-m", "sim.shard"]


def spawn(args, env, extra=None):
    e = boot.reexec_pinned(env["hashseed"], env["orjson"])
    e["VERIF_ENV"] = json.dumps(env)
    if extra:
        e.update(extra)
    err = tempfile.TemporaryFile()
    p = subprocess.Popen(CMD + args, cwd=HERE, env=e, stdout=subprocess.PIPE, stderr=err,
                         preexec_fn=boot.no_aslr, start_new_session=True)
    p.err = err
    return p


def stderr_of(p):
    p.err.seek(0)
    return p.err.read().decode(errors="replace")


def kill(p):
    import signal

    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


def replay_file(pid, path, timeout=400):
    with open(path) as f:
        rp = json.load(f)
    p = spawn(["replay", pid, path], rp["env"])
    try:
        o, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        kill(p)
        return None, "timeout"
    finally:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
    for line in o.decode().splitlines():
        try:
            d = json.loads(line)
        except ValueError:
            continue
        if "replayed" in d:
            return d["replayed"], d["what"]
    return None, stderr_of(p)[-2000:]


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--deadline", type=float)
    ap.add_argument("--shards", type=int, help="run only this many worker processes at a time")
    ap.add_argument("--keep-going", action="store_true")
    a = ap.parse_args()
    if a.replay:
        with open(a.replay) as f:
            rp = json.load(f)
        ok, what = replay_file(rp["property"], a.replay)
        if ok:
            print(f"reproduced: {what}")
            print(f"VIOLATION property={rp['property']} replay={a.replay}")
            return 1
        print("not reproduced" if ok is False else f"no answer: {what}")
        return 0 if ok is False else 2
    return run_check(a)


def run_check(a):
    from sim import registry

    t0 = time.monotonic()
    prop = registry.get(a.prop)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    ncases = a.cases or (prop.quick_cases if tier == "quick" else prop.thorough_cases)
    deadline = a.deadline or (prop.quick_wall if tier == "quick" else prop.thorough_wall)
    os.makedirs(OUT, exist_ok=True)

    # recorded findings: re-run each; listed ones that still fail are announced, not counted
    known_lines = []
    for k in load_known():
        if k["property"] != a.prop or k["status"] != "open":
            continue
        path = os.path.join(HERE, k["replay"])
        ok, what = replay_file(a.prop, path)
        if ok:
            known_lines.append(f"KNOWN-FINDING: property={a.prop} {k['what']}")
        elif ok is None:
            print(f"no answer from known finding {k['id']}: {what}")
            return 2

    nsh = shardmod.NSHARDS
    todo = list(range(nsh))
    width = a.shards or nsh
    extra = {"VERIF_KEEP_GOING": "1"} if a.keep_going else None
    running = {}
    sel = selectors.DefaultSelector()
    bufs = {}
    ends = {}
    viols = []
    errors = []
    hard_end = time.monotonic() + (deadline + 320) * (nsh / width) + 60

    def start():
        while todo and len(running) < width:
            s = todo.pop(0)
            p = spawn(["run", a.prop, tier, str(a.seed), str(s), str(nsh), str(ncases), str(deadline)],
                      shardmod.variant_of(s), extra)
            running[s] = p
            bufs[s] = b""
            sel.register(p.stdout, selectors.EVENT_READ, s)

    confirmed = None
    unreproduced = []
    start()
    while running and confirmed is None:
        if time.monotonic() > hard_end:
            errors.append("wall limit of the coordinator")
            break
        for key, _ in sel.select(timeout=1.0):
            s = key.data
            data = os.read(key.fileobj.fileno(), 1 << 20)
            if not data:
                sel.unregister(key.fileobj)
                p = running.pop(s)
                p.wait()
                err = stderr_of(p)
                try:
                    os.killpg(p.pid, 9)
                except ProcessLookupError:
                    pass
                if s not in ends:
                    errors.append(f"shard {s} ended without a report (rc {p.returncode}): {err[-1500:]}")
                start()
                continue
            bufs[s] += data
            *lines, bufs[s] = bufs[s].split(b"\n")
            for ln in lines:
                try:
                    d = json.loads(ln)
                except ValueError:
                    continue
                if "end" in d:
                    ends[s] = d
                    errors += [f"shard {s} {e}" for e in d["errors"]]
                elif "violation" in d:
                    v = d["violation"]
                    viols.append(v)
                    if a.keep_going:
                        print("candidate:", v["i"], v["what"][:700])
                        continue
                    path = os.path.join(OUT, f"replay-{a.prop}-{v['i']}.json")
                    rp = {"property": a.prop, "seed": a.seed, **v}
                    with open(path, "w") as f:
                        json.dump(rp, f, indent=1, default=str)
                    ok, what = replay_file(a.prop, path)
                    if not ok:  # fall back to the run as found
                        rp = {"property": a.prop, "seed": a.seed, "i": v["i"], "env": v["env"], **d["original"]}
                        with open(path, "w") as f:
                            json.dump(rp, f, indent=1, default=str)
                        ok, what = replay_file(a.prop, path)
                    if ok:
                        confirmed = (path, v, what)
                        break
                    unreproduced.append((path, v["what"]))
    for p in running.values():
        kill(p)
    for p in list(running.values()):
        p.stdout.close()

    wall = time.monotonic() - t0
    write_evidence(a, prop, tier, ends, viols, wall, errors, unreproduced)
    for l in known_lines:
        print(l)
    if confirmed:
        path, v, what = confirmed
        print(f"violation of {a.prop}: {what}")
        print(f"seed={a.seed} case={v['i']}  replay: python3 {os.path.join(HERE, 'check.py')} --replay {path}")
        print(f"VIOLATION property={a.prop} replay={path}")
        return 1
    if unreproduced:
        for p, w in unreproduced:
            print("found but not reproduced on replay:", w[:500], p)
    for e in errors[:5]:
        print("harness error:", e[-1500:])
    c = sum(e["done"] for e in ends.values())
    if errors or unreproduced or (viols and not a.keep_going):
        print(f"{a.prop}: no answer ({c} cases run)")
        return 2
    skipped = sum(e["stats"]["c"].get("skipped_cases", 0) for e in ends.values())
    if c < prop.min_cases or skipped > 0.6 * c:
        print(f"{a.prop}: no answer: only {c} cases, {skipped} of them not applicable")
        return 2
    runs = sum(e["stats"]["c"].get("runs", 0) for e in ends.values())
    print(f"{a.prop}: held in {runs} simulated runs of {c} cases ({wall:.1f}s)")
    return 0


def write_evidence(a, prop, tier, ends, viols, wall, errors, unreproduced):
    cnt = {}
    sets = {}
    for e in ends.values():
        for k, n in e["stats"]["c"].items():
            cnt[k] = cnt.get(k, 0) + n
        for k, v in e["stats"]["sets"].items():
            sets.setdefault(k, set()).update(v)
    runs = cnt.get("runs", 0)
    faults = {k[6:]: n for k, n in cnt.items() if k.startswith("fault_")}
    samples = []
    for i in range(2):
        c = shardmod.make_case(prop, a.seed, i, tier)
        samples.append({"case": i, "seed": c["seed"], "threads": c.get("threads"),
                        "declarations": (c["modules"][0]["parts"][1:] if c.get("modules") else None)})
    if viols:
        samples.insert(0, {"violation": viols[0]["what"], "case": viols[0]["i"]})
    nontriv = prop.nontrivial_key
    ev = {
        "property": a.prop,
        "tier": tier,
        "seed": a.seed,
        "level": prop.level,
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(sets.get(nontriv, ())),
            "rule": prop.rule,
            "samples": samples,
            "cases": sum(e["done"] for e in ends.values()),
            "case_seeds_per_hour": round(sum(e["done"] for e in ends.values()) / max(wall, 1e-9) * 3600),
            "simulated_runs_per_hour": round(runs / max(wall, 1e-9) * 3600),
            "simulated_steps": cnt.get("steps", 0),
            "simulated_time_note": "pyserde has no clock; simulated time is counted in scheduling steps",
            "thread_switches": cnt.get("switches", 0),
            "faults_fired": faults,
            "counters": {k: n for k, n in sorted(cnt.items()) if not k.startswith("fault_")},
            "distinct": {k: len(v) for k, v in sorted(sets.items()) if k != "skip_reasons"},
            "skip_reasons": sorted(sets.get("skip_reasons", ()))[:5],
            "real_components": "all of /repo/serde, the code it generates, beartype, plum, jinja2, the format "
                               "libraries, real OS threads",
            "stubs": "who runs next (seeded scheduler), threading.Lock/RLock created by pyserde (simulated locks), "
                     "random.getrandbits (constant per run), exceptions raised at chosen points",
            "slowest_case_s": round(max((e["slowest"][0] for e in ends.values()), default=0), 1),
            "harness_errors": len(errors),
            "unreproduced": len(unreproduced),
        },
        "assumptions": prop.assumptions,
        "wall_s": round(wall, 2),
        "violations": len(viols),
    }
    with open(os.path.join(OUT, f"{a.prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == "__main__":
    sys.exit(main())
