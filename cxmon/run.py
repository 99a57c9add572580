"""Run the check of one property: python -m cxmon.run C01 [--replay FILE]."""

import argparse
import hashlib
import importlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from cxmon.core import log
from cxmon.spec import BY_ID
from cxmon.worker import RECYCLE

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = "/opt/venv/bin/python"
if not os.path.exists(PYTHON):
    PYTHON = sys.executable
N_WORKERS = 8
CASE_TIMEOUT = 300.0
QUICK_LIMIT = 840.0
THOROUGH_BUDGET = 600.0


def worker_env(x64):
    env = dict(os.environ)
    env.update(
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        JAX_PLATFORMS="cpu",
        MPLBACKEND="Agg",
        PYTHONPATH=ROOT,
        TF_CPP_MIN_LOG_LEVEL="3",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
        JAX_ENABLE_X64="1" if x64 else "0",
        TQDM_DISABLE="1",
    )
    return env


def shard(cases):
    """Split cases into worker lists: float32/float64 apart, similar `group`s together."""
    by_x64 = {False: {}, True: {}}
    for case in cases:
        groups = by_x64[bool(case.get("x64"))]
        groups.setdefault(case.get("group", id(case)), []).append(case)

    def cost(group):
        return sum(c.get("cost", 1.0) for c in group)

    totals = {k: sum(cost(g) for g in v.values()) for k, v in by_x64.items()}
    grand = sum(totals.values()) or 1.0
    shards = []
    alloc = {}
    for key in (False, True):
        if not by_x64[key]:
            alloc[key] = 0
            continue
        alloc[key] = max(1, round(N_WORKERS * totals[key] / grand))
    while sum(alloc.values()) > N_WORKERS:
        big = max(alloc, key=lambda k: alloc[k])
        alloc[big] -= 1
    for key in (False, True):
        bins = [[0.0, []] for _ in range(min(alloc[key], len(by_x64[key])))]
        for group in sorted(by_x64[key].values(), key=cost, reverse=True):
            small = min(bins, key=lambda b: b[0])
            small[0] += cost(group)
            small[1].extend(group)
        shards.extend((key, b[1]) for b in bins if b[1])
    return shards


class Checker:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.reports = []
        self.violations = []
        self.errors = []
        self.rounds = 0
        self.known_keys = load_known(prop)
        self.known_seen = {}

    # ------------------------------------------------------------------
    def run_cases(self, cases, deadline):
        tmp = tempfile.mkdtemp(prefix="cxmon-")
        procs = []
        try:
            for i, (x64, lst) in enumerate(shard(cases)):
                inp = os.path.join(tmp, f"in{i}.json")
                out = os.path.join(tmp, f"out{i}.jsonl")
                err = os.path.join(tmp, f"err{i}.txt")
                with open(inp, "w") as f:
                    json.dump(lst, f)
                procs.append(self.spawn(x64, lst, inp, out, err))
            while any(p["live"] for p in procs):
                time.sleep(0.1)
                for p in procs:
                    if p["live"]:
                        self.poll(p, deadline)
        finally:
            for p in procs:
                kill(p["proc"])
            shutil.rmtree(tmp, ignore_errors=True)

    def spawn(self, x64, lst, inp, out, err):
        with open(err, "w") as ferr:
            proc = subprocess.Popen(
                [PYTHON, "-m", "cxmon.worker", self.prop, inp, out],
                cwd=ROOT,
                env=worker_env(x64),
                stdout=subprocess.DEVNULL,
                stderr=ferr,
                start_new_session=True,
            )
        return {
            "proc": proc, "cases": lst, "x64": x64, "inp": inp, "out": out, "err": err,
            "pos": 0, "started": None, "t": time.time(), "done": False, "live": True,
        }  # fmt: skip

    def poll(self, p, deadline):
        code = p["proc"].poll()
        self.read(p)
        if p["done"]:
            p["proc"].wait()
            p["live"] = False
            return
        now = time.time()
        if code is not None:
            self.read(p)
            if p["done"]:
                p["live"] = False
                return
            with open(p["err"]) as f:
                tail = f.read()[-1500:]
            case = p["cases"][p["started"]] if p["started"] is not None else None
            if code == RECYCLE:
                self.resume(p)
                return
            if case is not None and code in (
                -signal.SIGSEGV, -signal.SIGABRT, -signal.SIGFPE, -signal.SIGBUS,
                -signal.SIGILL,
            ):  # fmt: skip
                self.add_violation(case, "process crashed", {"signal": -code, "stderr": tail})
                self.resume(p)
                return
            self.errors.append(f"worker ended with {code}: {tail}")
            p["live"] = False
            return
        limit = CASE_TIMEOUT
        if p["started"] is not None:
            limit = float(p["cases"][p["started"]].get("timeout", CASE_TIMEOUT))
        if now - p["t"] > limit:
            kill(p["proc"])
            if p["started"] is None:
                self.errors.append("worker did not start in time")
                p["live"] = False
                return
            case = p["cases"][p["started"]]
            self.add_violation(case, "did not terminate", {"seconds": limit})
            self.resume(p)
            return
        if now > deadline:
            kill(p["proc"])
            p["live"] = False
            if self.tier == "quick":
                self.errors.append("quick run exceeded its time limit")

    def resume(self, p):
        """Carry on after the case that killed its worker."""
        rest = p["cases"][p["started"] + 1 :]
        if not rest or len(self.violations) >= 3:
            p["live"] = False
            return
        with open(p["inp"], "w") as f:
            json.dump(rest, f)
        if os.path.exists(p["out"]):
            os.unlink(p["out"])
        p.update(self.spawn(p["x64"], rest, p["inp"], p["out"], p["err"]))

    def read(self, p):
        if not os.path.exists(p["out"]):
            return
        with open(p["out"]) as f:
            f.seek(p["pos"])
            data = f.read()
        end = data.rfind("\n")
        if end < 0:
            return
        p["pos"] += len(data[: end + 1].encode())
        for line in data[: end + 1].splitlines():
            rec = json.loads(line)
            if "start" in rec:
                p["started"] = rec["start"]
                p["t"] = time.time()
            elif "done" in rec:
                p["done"] = True
            else:
                self.reports.append(rec)
                if os.environ.get("CXMON_VERBOSE"):
                    log(f"  {rec['dt']:.2f}s", json.dumps(rec["case"])[:160])
                for v in rec["violations"]:
                    self.add_violation(rec["case"], v["mech"], v["detail"])
                for k in rec["known"]:
                    if k["key"] in self.known_keys:
                        self.known_seen[k["key"]] = k
                    else:
                        self.add_violation(rec["case"], k["key"], k["detail"])
                p["t"] = time.time()

    def add_violation(self, case, mech, detail):
        self.violations.append({"case": case, "mech": mech, "detail": detail})

    def confirm(self, deadline):
        """Repeat, alone, the cases that killed their worker or did not come back: only what happens again counts."""
        odd = ("did not terminate", "process crashed")
        again = [v for v in self.violations if v["mech"] in odd]
        self.violations = [v for v in self.violations if v["mech"] not in odd]
        if again and not self.violations:
            cases = [v["case"] for v in again[:2]]
            self.run_cases(cases, max(deadline, time.time() + 2 * CASE_TIMEOUT))

    # ------------------------------------------------------------------
    def finish(self, module):
        if self.violations:
            seen = set()
            rep_dir = os.path.join(ROOT, "evidence", "replays")
            os.makedirs(rep_dir, exist_ok=True)
            for v in self.violations:
                if v["mech"] in seen or len(seen) >= 6:
                    continue
                seen.add(v["mech"])
                name = hashlib.sha1(
                    json.dumps([v["case"], v["mech"]], sort_keys=True).encode()
                ).hexdigest()[:10]
                path = os.path.join(rep_dir, f"{self.prop}-{name}.json")
                with open(path, "w") as f:
                    json.dump({"property": self.prop, **v}, f, indent=1)
                log("violation:", v["mech"], json.dumps(v["detail"])[:600])
                log("   case:", json.dumps(v["case"])[:400])
                print(f"VIOLATION property={self.prop} replay={path}", flush=True)
        for key, k in sorted(self.known_seen.items()):
            print(f"KNOWN-FINDING: property={self.prop} {k['text']}", flush=True)
        self.write_evidence(module)
        if self.violations:
            return 1
        if self.errors:
            for e in self.errors:
                log("error:", e)
            return 2
        total = sum(r["obs"] for r in self.reports)
        if not total:
            log("error: nothing was observed")
            return 2
        return 0

    def write_evidence(self, module):
        sigs, mech, samples, margins = set(), {}, [], {}
        kinds = {}
        for r in self.reports:
            sigs.update(r["sigs"])
            for k, n in r["by_mech"].items():
                mech[k] = mech.get(k, 0) + n
            for k, m in r["margins"].items():
                margins[k] = max(margins.get(k, 0.0), m)
            kind = str(r["case"].get("kind", "case"))
            kinds[kind] = kinds.get(kind, 0) + 1
            if len(samples) < 6 and r["samples"]:
                samples.append({"case": r["case"], "observed": r["samples"][:1]})
        if not samples:
            samples = [{"case": r["case"]} for r in self.reports[:3]]
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": len(self.reports),
                "distinct_nontrivial": len(sigs),
                "rule": getattr(module, "RULE", ""),
                "samples": samples,
                "observations": sum(r["obs"] for r in self.reports),
                "observations_by_monitor": dict(sorted(mech.items())),
                "cases_by_kind": dict(sorted(kinds.items())),
                "worst_error_over_tolerance": {
                    k: round(m, 6) for k, m in sorted(margins.items())
                },
                "rounds": self.rounds,
                "float64_cases": sum(bool(r["case"].get("x64")) for r in self.reports),
                "known_findings_observed": sorted(self.known_seen),
            },
            "assumptions": getattr(module, "ASSUMPTIONS", []),
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        path = os.path.join(ROOT, "evidence", f"{self.prop}.json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(path + ".tmp", path)


def kill(proc):
    if proc.poll() is None:
        try:
            os.killpg(proc.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        proc.wait()


def load_known(prop):
    """Keys of the known findings recorded for a property (never written here)."""
    keys = set()
    path = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) key=(\S+)", line)
                if m and m.group(1) == prop:
                    keys.add(m.group(2))
    return keys


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--only", help="only the cases of this kind")
    ap.add_argument("--budget", type=float, default=THOROUGH_BUDGET)
    args = ap.parse_args()
    if args.prop not in BY_ID:
        log("unknown property", args.prop)
        return 2
    module = importlib.import_module(f"cxmon.props.{args.prop.lower()}")
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    chk = Checker(args.prop, tier, args.seed)
    if args.replay:
        with open(args.replay) as f:
            rec = json.load(f)
        chk.rounds = 1
        chk.run_cases([rec["case"]], chk.t0 + QUICK_LIMIT)
        return chk.finish(module)
    if tier == "quick":
        rounds = [0]
        deadline = chk.t0 + QUICK_LIMIT
    else:
        rounds = range(10**6)
        deadline = chk.t0 + args.budget + CASE_TIMEOUT
    for rnd in rounds:
        cases = list(module.cases(tier, args.seed, rnd))
        if args.only:
            cases = [c for c in cases if c.get("kind") == args.only]
        for i, c in enumerate(cases):
            c.setdefault("id", f"{tier[0]}{args.seed}.{rnd}.{i}")
        chk.run_cases(cases, deadline)
        chk.confirm(deadline)
        chk.rounds += 1
        log(
            f"{args.prop} round {rnd}: {len(cases)} cases, "
            f"{sum(r['obs'] for r in chk.reports)} observations, "
            f"{len(chk.violations)} violations, {time.time() - chk.t0:.1f}s"
        )
        if chk.violations or chk.errors:
            break
        if tier == "thorough" and time.time() - chk.t0 > args.budget:
            break
    return chk.finish(module)


if __name__ == "__main__":
    sys.exit(main())
