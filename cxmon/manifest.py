"""Regenerate MANIFEST.json from the properties and the modules that exist."""

import importlib
import json
import os

from cxmon.spec import P

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)

TECHNIQUE = {
    "default": "runtime monitoring: online float64 oracle over executions of the real code on hostile seeded workloads",
    "C01": "runtime monitoring: trace checker of every returned coresubset against the rows that were passed in",
    "C02": "runtime monitoring: online uniqueness monitor over solver runs at exhausted and degenerate sizes",
    "C03": "runtime monitoring: guard monitor over invalid, boundary and valid configurations",
    "C04": "runtime monitoring: metamorphic monitor pairing padded and unpadded executions",
    "C05": "runtime monitoring: offline checker replaying the selected index trace against the greedy specification",
    "C06": "runtime monitoring: monotonicity monitor over refinement histories",
    "C07": "runtime monitoring: offline checker replaying the selected index trace against the Stein-greedy specification",
    "C08": "runtime monitoring: martingale test of the pivot law over recorded pivot traces",
    "C09": "runtime monitoring: offline checker replaying the selected index trace against the ridge loss",
    "C10": "runtime monitoring: checkers over recorded halving, choice and refinement traces",
    "C12": "runtime monitoring: recording base solvers and a termination monitor over MapReduce runs",
    "C25": "runtime monitoring: differential monitor over repeated, jitted and state-reusing executions",
    "C27": "runtime monitoring: martingale and frequency tests over recorded draws",
}


def main():
    checks, missing = [], []
    for p in P:
        pid = p["id"]
        path = os.path.join(HERE, "props", pid.lower() + ".py")
        if not os.path.exists(path):
            missing.append({"property": pid, "reason": "check not built yet"})
            continue
        mod = importlib.import_module("cxmon.props." + pid.lower())
        checks.append(
            {
                "property": pid,
                "quick_cmd": f"./chk {pid}",
                "thorough_cmd": f"./chk {pid} --tier thorough",
                "technique": TECHNIQUE.get(pid, TECHNIQUE["default"]),
                "level": "exploration",
                "level_note": "Held on every monitored execution, none beyond: " + mod.RULE
                + ("; assumes " + "; ".join(mod.ASSUMPTIONS) if mod.ASSUMPTIONS else ""),
                "evidence_file": f"evidence/{pid}.json",
            }
        )
    man = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -c 'import jax, equinox, numpy, scipy'",
        "checks": checks,
        "not_applicable": missing,
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
