"""Approximate kernels only approximate the Gramian row mean."""

import itertools

import numpy as np

from cxmon import gen, greedy, lib, ref

RULE = (
    "a case wraps a kernel in one approximation and compares every inherited operation with the base kernel's reference, and "
    "the approximate row mean of several datasets with the exact one where the sampled points determine it; distinct: by "
    "approximation, kernel, n, numbers of points, regime"
)
ASSUMPTIONS = [
    "exact recovery is judged for Gramians whose non-zero eigenvalues are well above rounding (distinct points, or linear and "
    "polynomial kernels with at least as many generic sampled points as their rank)",
]
NAMES = ["MonteCarloApproximateKernel", "ANNchorApproximateKernel", "NystromApproximateKernel"]


def cases(tier, seed, rnd):
    r = gen.rng("C22", seed, rnd)
    for i in range(36 if tier == "quick" else 180):
        yield {
            "kind": NAMES[i % 3], "regime": ["all", "rank", "any"][(i // 3) % 3], "x64": bool((i // 9) % 3), "seed": gen.seed(r), "cost": 1,
        }  # fmt: skip


def run(case, mon):
    r = gen.rng(case["seed"])
    jnp, eqx = lib.jnp, lib.eqx
    regime = case["regime"]
    d = int(r.integers(1, 4))
    n = int(r.choice([2, 4, 7, 12]))
    x64 = case["x64"]
    ann = case["kind"] == "ANNchorApproximateKernel"
    if regime == "rank" and not ann:
        spec = gen.kernel(r, str(r.choice(["lin", "poly"])))
        n = int(r.choice([12, 20]))
        if spec[0] == "poly":
            d, spec[3] = 1, 2
        rank = d + 1 if spec[0] == "lin" else 3
        nk, nt = int(r.integers(rank + 2, n)), int(r.integers(rank + 2, n))
    else:
        spec = gen.kernel(r, str(r.choice(["se", "pcimq", "lap", "exp", "mat", "rq"])), 0.7)
        distinct = int(r.integers(1, n + 1))
        if regime == "all":
            nk, nt = n, n
        elif regime == "rank":
            nk, nt = int(r.integers(distinct, n + 1)), n
        else:
            nk, nt = int(r.integers(1, n + 1)), n if r.integers(2) else int(r.integers(1, n + 1))
    base, kern = ref.build(spec), ref.ref(spec)
    key = lib.jr.key(gen.seed(r))
    app = mon.call("constructor", getattr(lib, case["kind"]), base, key, num_kernel_points=nk, num_train_points=nt)
    info0 = {"approximation": case["kind"], "spec": spec, "n": n, "kernel_points": nk, "train_points": nt, "regime": regime}
    row = eqx.filter_jit(app.gramian_row_mean)
    arr = lambda v: jnp.asarray(v, dtype=float)  # noqa: E731
    for rep in range(4):
        x = gen.points(r, n, d, "normal" if regime != "any" else str(r.choice(["normal", "dups", "ints", "same"])))
        if regime == "rank" and ann:
            rows = np.concatenate([np.arange(distinct), r.integers(0, distinct, size=n - distinct)])
            x = gen.f32(np.arange(n)[:, None] * 0.8 + 0.1 * x)[r.permutation(rows)]
        elif regime == "all" or nt == n:
            x = gen.f32(np.arange(n)[:, None] * 0.8 + 0.1 * x)
        info = {"x": x, **info0}
        got = mon.call("gramian_row_mean", app.gramian_row_mean if rep == 0 else row, arr(x))
        g = np.asarray(got, dtype=np.float64)
        mon.need(g.shape == (n,), "one value per row", got=g.shape, **info)
        mon.check(bool(np.all(np.isfinite(g))), "the row mean is finite", got=g, **info)
        again = np.asarray(mon.call("gramian_row_mean", app.gramian_row_mean if rep == 0 else row, arr(x)), dtype=np.float64)
        mon.check(np.array_equal(again, g), "deterministic for its key", got=again, want=g, **info)
        w = gen.weights(r, n, "rand")
        wg = np.asarray(mon.call("gramian_row_mean", row, greedy.to_data(x, w)), dtype=np.float64)
        w2 = np.asarray(mon.call("gramian_row_mean", row, greedy.to_data(x, gen.weights(r, n, "zeros"))), dtype=np.float64)
        mon.check(np.array_equal(wg, w2), "independent of the weights", got=wg, want=w2, **info)
        gram = kern.k(x, x)
        scale = float(np.max(np.abs(gram)))
        if regime != "any":
            exact = gram.mean(axis=1)
            sv = np.linalg.svd(gram, compute_uv=False)
            cond = sv[0] / max(sv[sv > (1e-9 if regime == "rank" else 0) * sv[0]].min(), 1e-300)
            tol = (1e-12 if x64 else 3e-6) * (10 + 3 * cond)
            if regime == "rank":
                tol = 1e-8 if x64 else 5e-3
            if tol < 0.05:
                mon.close(g, exact, "exact when the sampled points determine the row mean", rtol=tol, scale=scale, **info)
                mon.close(wg, exact, "exact for weighted data", rtol=tol, scale=scale, w=w, **info)
        elif nt == n and n <= 7:
            projections(mon, case, x, gram, g, nk, ann, info)
        # everything else is the base kernel's
        y = gen.points(r, 3, d)
        t = 1e-11 if x64 else 2e-5
        mon.close(mon.call("compute", app.compute, arr(x), arr(y)), kern.k(x, y), "compute is the base kernel's", rtol=t, scale=scale + 1, **info)
        if rep == 0:
            wy = gen.weights(r, 3, "rand")
            want = (ref.norm_weights(w, n)[:, None] * ref.norm_weights(wy, 3)[None] * kern.k(x, y)).sum()
            bs = [None, 2, (3, 1)][int(r.integers(3))]
            got = mon.call("compute_mean", app.compute_mean, greedy.to_data(x, w), greedy.to_data(y, wy), block_size=bs)
            mon.close(got, want, "compute_mean is the base kernel's", rtol=5 * t, scale=scale + np.max(np.abs(kern.k(x, y))), **info)
            if spec[0] in ("se", "pcimq", "rq", "lin", "poly"):
                s1 = 1 + np.max(np.abs(kern.gx(x, y)))
                mon.close(mon.call("grad_x", app.grad_x, arr(x), arr(y)), kern.gx(x, y), "grad_x is the base kernel's", rtol=5 * t, scale=s1, **info)
                mon.close(mon.call("grad_y", app.grad_y, arr(x), arr(y)), kern.gy(x, y), "grad_y is the base kernel's", rtol=5 * t, scale=s1, **info)
                dv = kern.div(x, y)
                got = mon.call("divergence", app.divergence_x_grad_y, arr(x), arr(y))
                mon.close(got, dv, "divergence_x_grad_y is the base kernel's", rtol=5 * t, scale=1 + np.max(np.abs(dv)), **info)
            mon.sample(row_mean=g, **info)
        mon.sig(case["kind"], spec[0], n, nk, nt, regime)


def projections(mon, case, x, gram, g, nk, ann, info):
    """All rows are trained on: the result is the projection of the row mean on nk columns of the Gramian."""
    exact = gram.mean(axis=1)
    n = len(x)
    if ann:
        cols = [0]
        while len(cols) < nk:
            best = np.sort(gram[:, cols].max(axis=1))
            if len(best) > 1 and best[1] - best[0] < 1e-4 * best[0]:
                return  # a tie
            cols.append(int(np.argmin(gram[:, cols].max(axis=1))))
        sets = [cols]
    else:
        sets = list(itertools.combinations(range(n), nk))
    errs = []
    for cols in sets:
        q, _ = np.linalg.qr(gram[:, list(cols)])
        errs.append(float(np.max(np.abs(q @ (q.T @ exact) - g))))
    tol = (1e-8 if case["x64"] else 1e-3) * np.max(np.abs(gram))
    mon.check(min(errs) <= tol, "the row mean regressed on the sampled columns", err=min(errs), tol=tol, got=g, sets=len(sets), **info)
