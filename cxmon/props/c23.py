"""Matched score functions are the score of the density they fit."""

import numpy as np

from cxmon import gen, lib, scores

RULE = (
    "a case fits a score to generated data (weighted or not) and evaluates it at queries in every "
    "input form; kernel density scores are compared with the analytic score of the weighted KDE, "
    "sliced score matching with the true score of Gaussian data; distinct: by method, settings, n, d, query form"
)
ASSUMPTIONS = [
    "queries lie within 60 length scales of the data",
    "sliced score matching is judged by correlation (>0.92) and relative error (<0.35) against the true score of the (noise-perturbed, if noise conditioning) Gaussian after 250 epochs; over 150 runs at the pinned commit the worst were 0.988 and 0.17",
]


def cases(tier, seed, rnd):
    r = gen.rng("C23", seed, rnd)
    n = 32 if tier == "quick" else 80
    for i in range(n):
        yield {"kind": "kdm", "x64": i % 4 != 3, "seed": gen.seed(r), "cost": 1}
    for i in range(16 if tier == "quick" else 24):
        yield {
            "kind": "ssm", "x64": False, "seed": gen.seed(r), "noise": bool(i & 1), "analytic": bool(i & 2),
            "gen": ["normal", "rademacher"][(i >> 2) & 1], "d": 1 + (i >> 3) % 2, "cost": 3,
        }  # fmt: skip
    for i in range(4):
        yield {"kind": "ssm-config", "x64": False, "seed": gen.seed(r), "which": i, "cost": 3}


def run(case, mon):
    r = gen.rng(case["seed"])
    {"kdm": kdm, "ssm": ssm, "ssm-config": ssm_config}[case["kind"]](case, mon, r)


def kdm(case, mon, r):
    jnp = lib.jnp
    d = int(r.choice([1, 1, 2, 3]))
    n = int(r.choice([1, 2, 5, 12]))
    x = gen.points(r, n, d, str(r.choice(["normal", "dups", "clusters", "shift", "big"])))
    wk = str(r.choice(["none", "rand", "zeros", "big", "skew", "int"]))
    w = gen.weights(r, n, wk)
    ls = float(np.float32(gen.scale_of(x) * gen.par(r, 0.5, 1.5)))
    near = x[r.integers(0, n, size=6)] if w is None else x[np.flatnonzero(w)[r.integers(0, np.count_nonzero(w), size=6)]]
    q = gen.f32(near + ls * r.normal(size=(6, d)))
    want_fn = scores.kde(x, w, ls)
    want = want_fn.np(q)
    matcher = lib.KernelDensityMatching(length_scale=ls)
    jx = jnp.asarray(x, dtype=float)
    if w is None:
        fun = mon.call("match", matcher.match, jx)
    else:
        fun = mon.call("match", matcher.match, jx, jnp.asarray(w, dtype=float))
    rt = 1e-8 if case["x64"] else 2e-3
    scale = 1 / ls + np.max(np.abs(want)) + np.max(np.abs(x)) / ls**2 * (0 if case["x64"] else 1)
    info = {"x": x, "w": w, "ls": ls, "q": q}
    got = mon.call("score", fun, jnp.asarray(q, dtype=float))
    mon.close(got, want, "score is the gradient of the log of the weighted KDE", rtol=rt, scale=scale, **info)
    i = int(r.integers(6))
    one = mon.call("score", fun, jnp.asarray(q[i], dtype=float))
    mon.close(one, want[i], "a point gives a point (independent of the batch)", rtol=rt, scale=scale, **info)
    row = mon.call("score", fun, jnp.asarray(q[i : i + 1], dtype=float))
    mon.close(row, want[i : i + 1], "a one-row array gives a one-row array", rtol=rt, scale=scale, **info)
    far = gen.f32(near[:3] + ls * r.choice([-60.0, 60.0], size=(3, d)))
    want_far = want_fn.np(far)
    got = mon.call("score", fun, jnp.asarray(far, dtype=float))
    sf = scale + np.max(np.abs(want_far))
    mon.close(got, want_far, "score far from the data", rtol=rt, scale=sf, far=far, **info)
    own = mon.call("score", fun, jx)
    if w is None or np.all(w > 0):
        mon.close(own, want_fn.np(x), "score at the training data", rtol=rt, scale=scale + np.max(np.abs(want_fn.np(x))), **info)
    if d == 1:
        sc = mon.call("score", fun, float(q[i, 0]))
        mon.close(np.asarray(sc).ravel(), want[i].ravel(), "a scalar is a 1-d point", rtol=rt, scale=scale, **info)
    mon.sig("kdm", d, n, wk, case["x64"])
    mon.sample(got=got, want=want, **info)


def make(key, generator, **kw):
    return lib.SlicedScoreMatching(key, generator, **kw)


def ssm(case, mon, r):
    jnp, jr, optax = lib.jnp, lib.jr, lib.optax
    d = case["d"]
    mu = gen.f32(r.normal(size=d))
    sd = gen.par(r, 0.6, 1.4)
    x = gen.f32(mu + sd * r.normal(size=(2048, d)))
    n_noise, sigma = int(r.integers(1, 4)), float([0.3, 1.0][int(r.integers(2))] * sd)
    generator = {"normal": jr.normal, "rademacher": jr.rademacher}[case["gen"]]
    kw = {
        "noise_conditioning": case["noise"], "use_analytic": case["analytic"], "num_random_vectors": int(r.integers(3, 6)),
        "num_epochs": 250, "batch_size": 512, "hidden_dims": (16,), "optimiser": optax.adam(1e-2),
        "num_noise_models": n_noise, "sigma": sigma, "gamma": 0.7,
    }  # fmt: skip
    key = jr.key(gen.seed(r))
    jx = jnp.asarray(x, dtype=float)
    fun = mon.call("match", make(key, generator, **kw).match, jx)
    q = gen.f32(mu + sd * r.normal(size=(120, d)))
    got = np.asarray(mon.call("score", fun, jnp.asarray(q, dtype=float)), dtype=np.float64)
    # the minimiser is the score of the mixture of perturbed densities weighted by sigma_i^2
    sig2 = (sigma * 0.7 ** np.arange(n_noise)) ** 2 if case["noise"] else np.zeros(1)
    var = sd**2 + sig2
    logp = -0.5 * np.sum((q - mu) ** 2, axis=1)[:, None] / var - 0.5 * d * np.log(var)
    p = np.exp(logp) * (sig2 if case["noise"] else 1.0)
    want = -(q - mu) * (np.sum(p / var, axis=1) / np.sum(p, axis=1))[:, None]
    mon.need(got.shape == want.shape and np.all(np.isfinite(got)), "finite and shape preserving", got=got.shape, want=want.shape)
    corr = float(np.sum(got * want) / np.sqrt(np.sum(got**2) * np.sum(want**2)))
    err = float(np.linalg.norm(got - want) / np.linalg.norm(want))
    info = {"corr": corr, "rel_err": err, "mu": mu, "sd": sd}
    mon.check(corr > 0.92, "correlates with the true Gaussian score", **info)
    mon.check(err < 0.35, "approximates the true Gaussian score", **info)
    one = np.asarray(mon.call("score", fun, jnp.asarray(q[3], dtype=float)))
    mon.close(one, got[3], "a point gives a point (independent of the batch)", atol=1e-4 * (1 + np.max(np.abs(got))))
    mon.margins["ssm corr (1-corr)/0.08"] = (1 - corr) / 0.08
    mon.margins["ssm err/0.35"] = err / 0.35
    mon.sig("ssm", case["noise"], case["analytic"], case["gen"], d)
    mon.sample(got=got[:5], want=want[:5], **info)


def ssm_config(case, mon, r):
    jnp, jr = lib.jnp, lib.jr
    which = case["which"]
    d, n = int(r.integers(1, 4)), int(r.choice([1, 3, 40]))
    x = jnp.asarray(gen.points(r, n, d), dtype=float)
    kw = [
        {"num_epochs": 0},
        {"num_epochs": 2, "batch_size": 100, "hidden_dims": (8,)},
        {"num_epochs": 220, "batch_size": 4, "hidden_dims": (4, 4), "noise_conditioning": False},
        {"num_epochs": 3, "hidden_dims": (16, 8, 4), "num_noise_models": 1, "use_analytic": True},
    ][which]
    seed = gen.seed(r)
    f1 = mon.call("match", make(jr.key(seed), jr.normal, **kw).match, x)
    f2 = mon.call("match", make(jr.key(seed), jr.normal, **kw).match, x)
    f3 = mon.call("match", make(jr.key(seed + 1), jr.normal, **kw).match, x)
    q = jnp.asarray(gen.points(r, 7, d), dtype=float)
    a, b, c = (np.asarray(f(q)) for f in (f1, f2, f3))
    mon.check(a.shape == (7, d) and np.all(np.isfinite(a)), "finite and shape preserving", got=a)
    mon.check(np.array_equal(a, b), "deterministic for its key", a=a, b=b)
    mon.check(not np.array_equal(a, c), "different keys train differently", a=a)
    mon.sig("ssm-config", which, d, n)
