"""Weight optimisers return the optimal weights for the coreset."""

import numpy as np

from cxmon import gen, greedy, lib, ref

RULE = (
    "a case solves for the weights of coresets (subsets and pseudo-coresets) of several datasets with one optimiser and compares "
    "them, in float64, with the linear system or with the optimum of the quadratic program over the simplex, found independently; "
    "distinct: by optimiser, sizes, kernel, weights, tolerance"
)
ASSUMPTIONS = [
    "the QP optimum is judged by the objective, within a tolerance set by the OSQP tolerance (default 1e-3)",
    "SBQ systems are judged by their residual; condition numbers are kept below the working precision",
]
FAMS = ["se", "pcimq", "rq", "lap", "mat"]


def cases(tier, seed, rnd):
    r = gen.rng("C20", seed, rnd)
    for i in range(13 if tier == "quick" else 60):
        yield {"kind": "mmd", "x64": bool(i % 2), "seed": gen.seed(r), "cost": 3, "tight": i % 3 == 0}
    for i in range(16 if tier == "quick" else 50):
        yield {"kind": "sbq", "x64": bool(i % 3), "seed": gen.seed(r), "cost": 1}


def project(v):
    """Euclidean projection on the simplex."""
    u = np.sort(v)[::-1]
    css = np.cumsum(u) - 1
    rho = np.flatnonzero(u - css / np.arange(1, len(v) + 1) > 0)[-1]
    return np.maximum(v - css[rho] / (rho + 1), 0)


def simplex_qp(q, c):
    """Minimum of 0.5 w'qw - c'w over the simplex (accelerated projected gradient), with its duality gap."""
    m = len(c)
    step = 1 / max(float(np.linalg.eigvalsh(q)[-1]), 1e-12)
    w = z = np.full(m, 1 / m)
    t = 1.0
    for _ in range(4000):
        grad = q @ z - c
        w_new = project(z - step * grad)
        t_new = (1 + np.sqrt(1 + 4 * t * t)) / 2
        if (z - w_new) @ (w_new - w) > 0:
            t_new, z = 1.0, w_new
        else:
            z = w_new + (t - 1) / t_new * (w_new - w)
        w, t = w_new, t_new
    grad = q @ w - c
    return 0.5 * w @ q @ w - c @ w, float(grad @ w - grad.min())


def fixed():
    """An optimiser whose weights are known."""
    if not CACHE:

        class Fixed(lib.WeightsOptimiser):
            def solve(self, dataset, coreset, epsilon=1e-10, factor=1.0):
                return factor * lib.jnp.arange(len(coreset), dtype=float) - 1

        CACHE.append(Fixed)
    return CACHE[0]


CACHE = []


def optimal(mon, case, got, q, z, label, info):
    """Decide whether weights are the optimiser's optimum."""
    m = len(z)
    mon.need(got.shape == (m,), label + "one weight per point", got_shape=got.shape, **info)
    if case["kind"] == "sbq":
        tol = (1e-12 if case["x64"] else 1e-5) * (np.max(np.abs(q)) * (1 + np.abs(got).sum()) + np.max(np.abs(z)))
        mon.close(q @ got, z, label + "weights solve (k(c,c) + eps I) w = mean_x k(c,x)", atol=tol, weights_got=got, **info)
        return
    mon.check(bool(np.all(got >= 0)), label + "weights are non-negative", weights_got=got, **info)
    mon.close(got.sum(), np.asarray(1.0), label + "weights sum to one", atol=1e-12 if case["x64"] else 2e-6, **info)
    f = 0.5 * got @ q @ got - z @ got
    best, gap = simplex_qp(q, z)
    uni = np.full(m, 1 / m)
    fu = 0.5 * uni @ q @ uni - z @ uni
    tol = (8e-6 if case["tight"] else 1.5e-3) * float(np.max(np.abs(q))) + gap
    mon.close(np.asarray(f), np.asarray(best), label + "objective is minimal over the simplex", atol=tol, weights_got=got, **info)
    mon.check(f <= fu + tol, label + "no worse than uniform weights", f=f, uniform=fu, weights_got=got, **info)


def run(case, mon):
    r = gen.rng(case["seed"])
    jnp = lib.jnp
    d = int(r.integers(1, 4))
    n = int(r.choice([3, 8, 20, 30]))
    m = int(r.integers(1, min(n, 12) + 1))
    mmd = case["kind"] == "mmd"
    fam = FAMS[int(r.integers(len(FAMS)))]
    spec = gen.kernel(r, fam, 1.0)
    kern, opt = ref.ref(spec), (lib.MMDWeightsOptimiser if mmd else lib.SBQWeightsOptimiser)(kernel=ref.build(spec))
    kw = {}
    bs = greedy.block(r, n)
    if bs is not None:
        kw["block_size"] = bs
    eps = 1e-10
    if r.integers(2):
        eps = kw["epsilon"] = float(r.choice([1e-6, 1e-3, 0.1]))
    pseudo = bool(r.integers(2))
    if mmd and case["tight"]:
        kw.update(tol=1e-7 if case["x64"] else 1e-5, maxiter=20000)
    solve = lib.eqx.filter_jit(lambda ds, pts: opt.solve(ds, pts, **kw))
    store = lib.eqx.filter_jit(lambda cs: cs.solve_weights(opt, **kw))
    for rep in range(4):
        geom = str(r.choice(["normal", "clusters", "grid", "constcol"] + (["dups", "same"] if mmd else [])))
        x = gen.points(r, n, d, geom)
        wk = str(r.choice(["none", "rand", "zeros", "skew", "big", "scalar"]))
        w = gen.weights(r, n, wk)
        p = ref.norm_weights(w, n)
        ds = greedy.to_data(x, w)
        cw = gen.weights(r, m, str(r.choice(["none", "rand"])))
        jw = None if cw is None else jnp.asarray(cw, dtype=float)
        if pseudo:
            c = gen.points(r, m, d)
            cs = lib.PseudoCoreset(lib.Data(jnp.asarray(c, dtype=float), jw), ds)
        else:
            idx = r.permutation(n)[:m]
            c = x[idx]
            cs = lib.Coresubset(lib.Data(jnp.asarray(idx, dtype=jnp.int32), jw), ds)
        q = kern.k(c, c) + eps * np.eye(m)
        z = kern.k(c, x) @ p
        if not mmd and np.linalg.cond(q) > (1e12 if case["x64"] else 1e5):
            continue
        info = {"n": n, "m": m, "spec": spec, "geom": geom, "weights": wk, "x": x, "w": w, "c": c, **kw}
        got = np.asarray(mon.call("solve", solve, ds, cs.points), dtype=np.float64)
        optimal(mon, case, got, q, z, "", info)
        new = mon.call("solve_weights", store, cs)
        mon.check(type(new) is type(cs), "solve_weights keeps the type", got=type(new).__name__, **info)
        pts = new.points
        optimal(mon, case, np.asarray(pts.weights, dtype=np.float64), q, z, "solve_weights: ", info)
        same = np.array_equal(np.asarray(pts.data), np.asarray(cs.points.data))
        same = same and np.array_equal(np.asarray(new.pre_coreset_data.data), np.asarray(ds.data))
        same = same and np.array_equal(np.asarray(new.pre_coreset_data.weights), np.asarray(ds.weights))
        if not pseudo:
            same = same and np.array_equal(np.asarray(new.unweighted_indices), idx)
        mon.check(same, "solve_weights changes only the weights", **info)
        exact = np.asarray(mon.call("solve_weights", cs.solve_weights, fixed()(), factor=2.0).points.weights, dtype=float)
        mon.check(np.array_equal(exact, 2.0 * np.arange(m) - 1), "solve_weights stores the optimiser's weights", stored=exact, **info)
        old = np.ones(m) if cw is None else cw
        mon.check(np.array_equal(np.asarray(cs.points.weights, dtype=float), old), "the coreset itself is not modified", **info)
        mon.sig(case["kind"], n, m, spec[0], geom, wk, pseudo, sorted(kw))
        if rep == 0:
            mon.sample(weights_got=got, **info)
