"""Writes /verif/MANIFEST.json for the claimed properties (argument: ids, default all in the registry)."""
import json
import pathlib
import sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
from sim import registry  # noqa: E402

PY = "/opt/venv/bin/python"
ids = sys.argv[1:] or sorted(registry.MODULES)
checks = []
for i in ids:
    p = registry.get(i)
    checks.append({
        "property": i,
        "quick_cmd": f"{PY} /verif/check.py {i}",
        "thorough_cmd": f"{PY} /verif/check.py {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": p.technique,
        "level": p.level,
        "level_note": p.level_note,
    })
PURE = ("a pure function of one call's input: no schedule, clock, I/O, fault, randomness or history can change it, "
        "so simulating schedules and faults would add nothing to plain example or property-based testing")
na = [{"property": i, "reason": PURE} for i in ("C20", "C21", "C22", "C23", "C24", "C25", "C26")]
for i in sorted(registry.MODULES):
    if i not in ids:
        na.append({"property": i, "reason": "check not finished yet"})
m = {
    "version": 1,
    "setup_cmd": "true",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: every seam is outside it (sys.monitoring events, threading.Lock/RLock factories "
             "installed before pyserde is imported, random.getrandbits). Replay a violation with "
             "'check.py --replay FILE'. known_findings.json lists repaired and open defects.",
}
(ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
