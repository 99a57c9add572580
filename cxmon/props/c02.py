"""Solvers that promise unique indices never return a repeated index."""

import numpy as np

from cxmon import gen, greedy, lib, ref, zoo

RULE = (
    "a case runs one solver that promises uniqueness at the sizes and on the data where repeats are likeliest (coreset as large "
    "as the data, coincident rows, rank-deficient kernels, zero weights, vanishing kernels) from no or any initial coresubset and "
    "observes the returned indices; distinct: by solver, size, geometry, weights and indices"
)
ASSUMPTIONS = [
    "solvers that skip zero-weighted rows get at least coreset_size positively weighted rows (MapReduce: in every partition)",
    "an initial coresubset has distinct, positively weighted indices and is not larger than coreset_size",
]
GEOMS = ["normal", "dups", "same", "ones", "line", "clusters", "big", "small", "ints", "outlier", "constcol", "origin"]
REFINE = ["herding", "herding-prob", "stein", "gkp", "gkp-batch"]


def cases(tier, seed, rnd):
    r = gen.rng("C02", seed, rnd)
    reps = 2 if tier == "quick" else 7
    for rep in range(reps):
        for name in zoo.UNIQUE:
            yield {"kind": name, "x64": bool((rep + rnd) % 2), "seed": gen.seed(r), "cost": 4 if name in zoo.SLOW else 2}
        for name in REFINE:
            yield {"kind": "refine:" + name, "x64": bool((rep + rnd) % 2 == 0), "seed": gen.seed(r), "cost": 4}
    for _ in range(2 if tier == "quick" else 8):
        yield {"kind": "rpc", "x64": True, "seed": gen.seed(r), "cost": 2}
        yield {"kind": "rpc", "long": 1, "x64": False, "seed": gen.seed(r), "cost": 3}


def run(case, mon):
    r = gen.rng(case["seed"])
    name = case["kind"].split(":")[-1]
    refine = case["kind"].startswith("refine:")
    slow = name in zoo.SLOW
    n = int(r.choice([2, 4, 7, 12, 17])) if slow or refine else int(r.choice([2, 3, 6, 12, 25]))
    if case.get("long"):
        n = 150
    d = int(r.integers(1, 4))
    mr = name.startswith("mr-")
    wk = str(r.choice(["none", "rand", "skew"] if mr or name in ("gkp-batch", "compress") else ["none", "rand", "zeros", "skew"]))
    n_pos = n - max(1, n // 4) if wk == "zeros" else n
    top = zoo.max_size(name, n, n_pos)
    size = top if r.integers(2) else int(r.integers(max(1, top // 2), top + 1))
    fam = [None, "lin", "se", "poly"][int(r.integers(4))]
    if fam == "poly" and (name == "kt" or name == "compress"):
        fam = None
    ls = float(r.choice([0.01, 1.0, 100.0]))
    solver, info0 = mon.call("constructor", zoo.make, r, name, n, size, ls, None, fam)
    jnp, eqx = lib.jnp, lib.eqx
    keyed = hasattr(solver, "random_key") and not mr

    def with_key(key):
        return eqx.tree_at(lambda s: s.random_key, solver, key) if keyed and solver.random_key is not None else solver

    red = eqx.filter_jit(lambda key, ds: with_key(key).reduce(ds)[0])
    rfn = eqx.filter_jit(lambda key, cs: with_key(key).refine(cs)[0])
    n_init = int(r.integers(1, size + 1)) if r.integers(3) else size
    for rep in range(8 if slow or case.get("long") else 30):
        geom = GEOMS[int(r.integers(len(GEOMS)))]
        x = np.full((n, d), float(geom == "ones")) if geom in ("origin", "ones") else gen.points(r, n, d, geom)
        if name.startswith("gkp") and geom in ("big", "outlier"):
            x = x / 30
        w = gen.weights(r, n, wk, min_pos=max(1, size))
        y = None
        if name in zoo.SUPERVISED:
            y = gen.points(r, n, 1, str(r.choice(["normal", "ints", "same", "big"])))
        ds = greedy.to_data(x, w, y)
        info = {"geom": geom, "n": n, "d": d, "weights": wk, "x": x, "w": w, "y": y, **info0}
        key = lib.jr.key(gen.seed(r))
        if refine:
            pos = np.flatnonzero(ref.norm_weights(w, n) > 0)
            idx = r.permutation(pos)[:n_init]
            info["init"] = idx
            init = lib.Coresubset(lib.Data(jnp.asarray(idx, dtype=jnp.int32)), ds)
            cs = mon.call("refine", rfn, key, init)
        else:
            cs = mon.call("reduce", red, key, ds)
        out = np.asarray(cs.unweighted_indices)
        mon.check(out.shape == (size,) and len(set(out.tolist())) == size, "returned indices are pairwise distinct", got=out, **info)
        if refine and rep < 2:
            cs = mon.call("refine", rfn, key, cs)
            out = np.asarray(cs.unweighted_indices)
            mon.check(len(set(out.tolist())) == size, "refined indices are pairwise distinct", got=out, **info)
        mon.sig(case["kind"], n, size, geom, wk, fam, ls, out.tolist()[:12])
        if rep == 0:
            mon.sample(indices=out, **info)
