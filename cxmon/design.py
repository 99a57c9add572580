"""Regenerate DESIGN.md (head and tail from design.in.md, the rest from the modules and seeded/)."""

import glob
import importlib
import json
import os

from cxmon.spec import P

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


def main():
    text = open(os.path.join(HERE, "design.in.md")).read()
    parts = []
    for p in P:
        mod = importlib.import_module("cxmon.props." + p["id"].lower())
        parts.append(
            f"### {p['id']} {p['title']}\n\n*Claim.* {p['statement']}\n\n*Decided by* {' '.join(mod.RULE.split())}.\n\n"
            f"*Beyond the tests:* {p['why_tests_cant']}\n"
            + (f"\n*Assumes:* {'; '.join(mod.ASSUMPTIONS)}.\n" if mod.ASSUMPTIONS else "")
        )
    fixed = {
        line.split()[2] for line in open(os.path.join(ROOT, "known-findings.txt")) if line.startswith("fixed:")
    }
    rows = ["| id | property | what it breaks | caught by |", "|---|---|---|---|"]
    res = json.load(open(os.path.join(HERE, "planted.json")))
    for path in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
        name = os.path.basename(os.path.dirname(path))
        meta = json.load(open(path))
        rows.append(f"| {name} | {meta['property']} | {meta['what_it_breaks']} | {res.get(name, '?')} |")
    text = text.replace("<<PROPERTIES>>", "\n".join(parts)).replace("<<NFIX>>", str(len(fixed) + 1))
    with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
        f.write(text.replace("<<PLANTED>>", "\n".join(rows)))


if __name__ == "__main__":
    main()
