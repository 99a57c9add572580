"""Every coresubset is made of exactly the requested rows of its dataset."""

import numpy as np

from cxmon import gen, greedy, lib, ref, zoo

RULE = (
    "a case runs one solver configuration on several hostile datasets of one shape and compares the returned coresubset "
    "with the rows that were passed in, bit for bit; distinct: by solver, sizes, geometry, dtype, indices"
)
ASSUMPTIONS = [
    "solvers that skip zero-weighted rows get at least coreset_size positively weighted rows",
    "floating-point kernels do not overflow on the data",
]
GEOMS = ["normal", "dups", "line", "constcol", "clusters", "big", "small", "ints", "outlier", "grid", "shift", "same"]


def cases(tier, seed, rnd):
    r = gen.rng("C01", seed, rnd)
    reps = 2 if tier == "quick" else 6
    for rep in range(reps):
        for name in zoo.NAMES:
            cost = 4 if name in zoo.SLOW else 1.5
            yield {"kind": name, "x64": bool(rep % 2 == 0), "seed": gen.seed(r), "cost": cost}
    for name in ("herding", "stein", "gkp", "herding-prob"):
        yield {"kind": "refine:" + name, "x64": bool(r.integers(2)), "seed": gen.seed(r), "cost": 3}


def run(case, mon):
    r = gen.rng(case["seed"])
    name = case["kind"].split(":")[-1]
    refine = case["kind"].startswith("refine:")
    slow = name in zoo.SLOW
    n = int(r.choice([1, 2, 3, 5, 9, 16, 21])) if slow else int(r.choice([1, 2, 3, 5, 9, 17, 33]))
    d = int(r.integers(1, 4))
    wk = str(r.choice(["none", "rand", "zeros", "int", "scalar", "big"]))
    n_pos = n - max(1, n // 4) if wk == "zeros" and n > 1 else n
    top = zoo.max_size(name, n, n_pos)
    size = int(r.integers(1, top + 1))
    if r.integers(4) == 0:
        size = top
    if name in ("compress", "gkp-batch"):
        wk = "none" if wk == "zeros" else wk
    sup = name in zoo.SUPERVISED or bool(r.integers(3) == 0)
    int_data = bool(r.integers(5) == 0) and name in ("random", "random-replace", "herding", "rpc")
    p = 1 if name in zoo.SUPERVISED else int(r.integers(1, 3))
    solver, info0 = mon.call("constructor", zoo.make, r, name, n, size, 1.5)
    if name in ("caratheodory", "tree"):
        want_size = {"implicit": n, "implicit-explicit": min(n, d + 1)}[info0["mode"]]
    else:
        want_size = size
    jnp, eqx = lib.jnp, lib.eqx
    reduce = eqx.filter_jit(lambda ds: solver.reduce(ds)[0])
    ref_fn = eqx.filter_jit(lambda cs: solver.refine(cs)[0])
    n_init = int(r.integers(1, n_pos + 1)) if refine else 0
    eager_ok = not slow and not refine
    for rep in range(4):
        geom = GEOMS[int(r.integers(len(GEOMS)))]
        x = gen.points(r, n, d, "ints" if int_data else geom)
        if geom in ("big", "outlier", "shift") and name.startswith("gkp"):
            x = x / 10
        w = gen.weights(r, n, wk, min_pos=max(1, size))
        y = gen.points(r, n, p, str(r.choice(["normal", "big", "ints"]))) if sup else None
        jx = jnp.asarray(x, dtype=jnp.int32 if int_data else float)
        jy = None if y is None else jnp.asarray(y, dtype=float)
        jw = None if w is None else (w if np.ndim(w) == 0 else jnp.asarray(w, dtype=float))
        ds = lib.Data(jx, jw) if y is None else lib.SupervisedData(jx, jy, jw)
        xx, ww = np.asarray(ds.data).copy(), np.asarray(ds.weights).copy()
        yy = None if y is None else np.asarray(ds.supervision).copy()
        info = {"geom": geom, "n": n, "d": d, "weights": wk, "x": x, "w": w, **info0}
        if refine:
            pos = np.flatnonzero(ref.norm_weights(w, n) > 0)
            idx = r.permutation(pos)[: min(n_init, len(pos))]
            init = lib.Coresubset(lib.Data(jnp.asarray(idx, dtype=jnp.int32)), ds)
            info["init"] = idx
            cs = mon.call("refine", ref_fn, init)
        else:
            cs = mon.call("reduce", (lambda ds: solver.reduce(ds)[0]) if rep == 0 and eager_ok else reduce, ds)
        mon.need(isinstance(cs, lib.Coresubset), "returns a Coresubset", got=type(cs).__name__)
        ind = np.asarray(cs.unweighted_indices)
        mon.need(ind.shape == (want_size,) and len(cs) == want_size, "has the requested number of indices",
                 got=[ind.shape, len(cs)], want=want_size, **info)  # fmt: skip
        mon.need(ind.dtype.kind in "iu", "indices are integers", dtype=str(ind.dtype), **info)
        mon.need(bool(np.all((ind >= 0) & (ind < n))), "indices lie in [0, len(dataset))", got=ind, **info)
        pts = cs.points
        got = np.asarray(pts.data)
        mon.check(
            got.dtype == xx.dtype and got.shape == (want_size, d) and np.array_equal(got, xx[ind], equal_nan=True),
            "points are the rows at the indices", got=got, want=xx[ind], ind=ind, **info,
        )  # fmt: skip
        if sup:
            mon.check(isinstance(pts, lib.SupervisedData), "points keep their supervision", got=type(pts).__name__, **info)
            gy = np.asarray(pts.supervision)
            mon.check(
                gy.dtype == yy.dtype and gy.shape == (want_size, p) and np.array_equal(gy, yy[ind]),
                "supervision is the rows' at the indices", got=gy, want=yy[ind], ind=ind, **info,
            )  # fmt: skip
        pre = cs.pre_coreset_data
        same = np.array_equal(np.asarray(pre.data), xx) and np.array_equal(np.asarray(pre.weights), ww)
        same = same and np.asarray(pre.data).dtype == xx.dtype and type(pre) is type(ds)
        if sup and same:
            same = np.array_equal(np.asarray(pre.supervision), yy)
        mon.check(same, "pre_coreset_data is the dataset that was passed", pre=pre.data, **info)
        mon.check(np.array_equal(np.asarray(ds.data), xx), "the dataset is not modified", **info)
        mon.sig(case["kind"], n, size, geom, wk, sup, str(xx.dtype), ind.tolist()[:10])
        if rep == 0:
            mon.sample(indices=ind, **info)
