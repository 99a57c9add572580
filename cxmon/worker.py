"""Worker process: runs a list of cases of one property, one report line per case."""

import importlib
import json
import os
import sys
import time
import warnings

MAP_LIMIT = 20000
RECYCLE = 77


def map_count():
    """Memory mappings of this process: compiled XLA code uses them up."""
    with open("/proc/self/maps") as f:
        return sum(1 for _ in f)


def main():
    prop, path, out_path = sys.argv[1:4]
    warnings.simplefilter("ignore")
    repo = os.environ.get("CXMON_REPO", "/repo")
    sys.path.insert(0, repo)
    import coreax  # pylint: disable=import-outside-toplevel

    if not os.path.realpath(coreax.__file__).startswith(os.path.realpath(repo) + "/"):
        print("coreax is not imported from", repo, file=sys.stderr)
        sys.exit(3)
    from cxmon.core import run_case  # pylint: disable=import-outside-toplevel

    module = importlib.import_module(f"cxmon.props.{prop.lower()}")
    with open(path) as f:
        cases = json.load(f)
    with open(out_path, "w") as out:
        for idx, case in enumerate(cases):
            out.write(json.dumps({"start": idx, "t": time.time()}) + "\n")
            out.flush()
            t0 = time.time()
            rep = run_case(module, prop, case)
            rep["case"] = case
            rep["idx"] = idx
            rep["dt"] = time.time() - t0
            out.write(json.dumps(rep) + "\n")
            out.flush()
            if map_count() > MAP_LIMIT:
                import gc  # pylint: disable=import-outside-toplevel

                import jax  # pylint: disable=import-outside-toplevel

                jax.clear_caches()
                gc.collect()
                if map_count() > MAP_LIMIT // 2:
                    out.flush()
                    os._exit(RECYCLE)  # a fresh worker carries on
        out.write(json.dumps({"done": True}) + "\n")


if __name__ == "__main__":
    main()
