"""Writes /verif/MANIFEST.json from the registry and the not-applicable list."""
import json
import pathlib
import sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
from sim import boot  # noqa: E402

boot.boot()
from sim import registry  # noqa: E402

props = [json.loads(x) for x in open(ROOT / "properties.jsonl")]
NA = {
    "N01": "Numerical accuracy of a pure function of its inputs: no schedule, clock, I/O, crash or multi-party behaviour to simulate; belongs to property-based testing or proof.",
    "N02": "Statistical/algebraic property of a pure function; the only environment-dependent part (seeding, ambient generators) is claimed as A04.",
    "N03": "Formula of a pure function over in-memory tensors; nothing to schedule or fail. Feeding it from disk is claimed as R04.",
    "N04": "Algebraic axioms of a pure function; KNN-Shapley holds no state between calls.",
    "N05": "Relation between inputs of a sequential computation; no environment choice affects it. Batch geometry under disk offload is claimed as D01.",
    "N06": "Equality of two pure computations for all layers and shapes; the hooks' lifetime under failures is claimed as A02.",
    "N07": "Round trip of a pure function.",
    "N08": "Agreement of a pure estimator with its published formula; its state under failures and interleavings is claimed as A01-A05.",
}
checks = []
na = []
for r in props:
    pid = r["id"]
    if pid in registry.CHECKS:
        c = registry.CHECKS[pid]
        checks.append({
            "property": pid,
            "quick_cmd": f"./check {pid} --tier quick",
            "thorough_cmd": f"./check {pid} --tier thorough",
            "technique": "deterministic simulation with fault injection: " + c.rule,
            "level": "exploration",
            "level_note": c.note,
        })
    else:
        na.append({"property": pid, "reason": NA.get(pid, "check under construction")})
m = {
    "version": 1,
    "setup_cmd": "./check --selftest",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks are needed in /repo: every source of nondeterminism is put behind a seam from outside "
             "(sim/patches.py replaces threading, queue, time, concurrent.futures and file operations inside the simulated process). "
             "Every check imports dattri from /repo's working tree. See DESIGN.md.",
}
with open(ROOT / "MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
