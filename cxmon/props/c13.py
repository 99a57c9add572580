"""Recombination preserves the centre of mass with at most m weighted points."""

import numpy as np

from cxmon import gen, greedy, lib

RULE = (
    "a case fixes solver, mode, shape, test functions and tree factor and reduces several weighted datasets; the returned "
    "measure is compared in float64 with the dataset's: total mass, sign, support and the mean of every test function; distinct: "
    "by solver, mode, n, m, geometry, weights and support"
)
ASSUMPTIONS = [
    "the mean of a test function is compared relative to the function's largest absolute value over the dataset",
    "weights are non-negative and not all zero; the dataset is not ill-conditioned beyond the working precision",
]
TOL = {True: 1e-10, False: 2e-4}
GEOMS = ["normal", "dups", "same", "line", "clusters", "ints", "constcol", "shift", "grid", "big", "small", "outlier"]


def cases(tier, seed, rnd):
    r = gen.rng("C13", seed, rnd)
    reps = 44 if tier == "quick" else 150
    for i in range(reps):
        yield {
            "kind": ["caratheodory", "tree"][i % 2], "mode": ["implicit-explicit", "implicit", "explicit"][(i // 2) % 3],
            "x64": bool((i // 6) % 3), "seed": gen.seed(r), "cost": 2,
        }  # fmt: skip


FUNS = {
    "identity": (None, lambda x: x),
    "quadratic": (lambda jnp: lambda x: jnp.concatenate([x, x * x]), lambda x: np.concatenate([x, x * x], axis=1)),
    "dependent": (lambda jnp: lambda x: jnp.stack([x[0], 2 * x[0], x[0] + 1]), lambda x: np.stack([x[:, 0], 2 * x[:, 0], x[:, 0] + 1], axis=1)),
    "trig": (lambda jnp: lambda x: jnp.concatenate([jnp.sin(x), jnp.cos(x)]), lambda x: np.concatenate([np.sin(x), np.cos(x)], axis=1)),
    "constant": (lambda jnp: lambda x: jnp.ones((2,), x.dtype), lambda x: np.ones((len(x), 2))),
    "first": (lambda jnp: lambda x: x[:1], lambda x: x[:, :1]),
}


def run(case, mon):
    r = gen.rng(case["seed"])
    jnp, eqx = lib.jnp, lib.eqx
    mode, kind = case["mode"], case["kind"]
    d = int(r.integers(1, 5))
    fname = str(r.choice(["identity", "identity", "quadratic", "dependent", "trig", "constant", "first"]))
    build, fun = FUNS[fname]
    m = 1 + fun(np.zeros((1, d))).shape[1]
    n = int(r.choice([1, 2, 3, m - 1, m, m + 1, 2 * m, 2 * m + 1, 4 * m, 30, 61]))
    n = max(n, 1)
    kw = {"mode": mode, "test_functions": None if build is None else build(jnp)}
    if r.integers(4) == 0:
        kw["rcond"] = 1e-12 if case["x64"] else 1e-5
    if kind == "tree":
        kw["tree_reduction_factor"] = int(r.choice([2, 2, 3, 4]))
    cls = lib.CaratheodoryRecombination if kind == "caratheodory" else lib.TreeRecombination
    solver = mon.call("constructor", cls, **kw)
    fn = solver.reduce if mode == "explicit" else eqx.filter_jit(solver.reduce)
    for rep in range(5 if mode != "explicit" else 3):
        geom = GEOMS[int(r.integers(len(GEOMS)))]
        wk = str(r.choice(["none", "rand", "zeros", "skew", "int", "big", "one"]))
        x = gen.points(r, n, d, geom)
        if fname == "quadratic" and geom in ("big", "outlier"):
            x = gen.f32(x / 1000)
        if wk == "one":
            w = np.zeros(n)
            w[int(r.integers(n))] = 2.0
        elif wk == "zeros":
            w = gen.weights(r, n, "rand")
            w[r.random(n) < 0.5] = 0.0
            if not w.any():
                w[int(r.integers(n))] = 1.0
        else:
            w = gen.weights(r, n, wk)
        ds = greedy.to_data(x, w)
        info = {"solver": kind, "mode": mode, "n": n, "d": d, "m": m, "functions": fname, "geom": geom, "weights": wk, "x": x, "w": w,
                **{k: v for k, v in kw.items() if k in ("rcond", "tree_reduction_factor")}}  # fmt: skip
        cs = mon.call("reduce", fn, ds)[0]
        ind = np.asarray(cs.unweighted_indices)
        pts = cs.points
        got_w = np.asarray(pts.weights, dtype=np.float64)
        size = {"implicit-explicit": min(n, m), "implicit": n}.get(mode, np.count_nonzero(got_w))
        mon.need(ind.shape == (size,) and got_w.shape == (size,), "number of returned nodes", got=ind.shape, want=size, **info)
        mon.need(bool(np.all((ind >= 0) & (ind < n))), "indices lie in [0, len(dataset))", got=ind, **info)
        info["returned"] = [ind, got_w]
        w0 = np.ones(n) if w is None else np.asarray(w, dtype=float)
        w0 = w0 / w0.sum()
        tol = TOL[case["x64"]]
        mon.check(bool(np.all(np.isfinite(got_w)) and np.all(got_w >= 0)), "weights are non-negative", **info)
        mon.close(np.asarray(got_w.sum()), np.asarray(1.0), "weights sum to one", atol=tol, **info)
        support = np.flatnonzero(got_w)
        mon.check(1 <= len(support) <= min(n, m), "at most m non-zero weights", support=len(support), **info)
        rows = ind[support]
        mon.check(len(set(rows.tolist())) == len(rows), "weighted rows are distinct", **info)
        mon.check(bool(np.all(w0[rows] > 0)), "weighted rows were positively weighted", **info)
        vals = fun(x)
        scale = np.max(np.abs(vals), axis=0)
        # directions with singular values below rcond are treated as null
        rcond = kw.get("rcond") or (2.3e-16 if case["x64"] else 1.2e-7) * max(n, m, 4 * m)
        floor = rcond * max(1.0, float(scale.max())) * np.sqrt(n * m)
        got_mean = got_w @ vals[ind]
        mon.close(got_mean, w0 @ vals, "mean of every test function is preserved", atol=tol * scale + floor, **info)
        mon.check(np.array_equal(np.asarray(pts.data, dtype=float), x[ind]), "points are the rows at the indices", **info)
        mon.sig(kind, mode, n, m, fname, geom, wk, rows.tolist()[:8])
        if rep == 0:
            mon.sample(**info)
