"""Compress++ thins exactly the rows it was given, at every size and depth."""

import math

import numpy as np

from cxmon import gen, greedy, lib, ref

RULE = (
    "a case fixes n, g, coreset_size and kernels, reduces several datasets under several keys with the real solver and "
    "observes the returned indices; quality cases compare the float64 MMD of hundreds of keyed reductions with that of as many "
    "uniform samples, on data whose order is informative; distinct: by n, g, size and indices"
)
ASSUMPTIONS = ["quality is judged on the mean over keys, for square exponential kernels with their square-root kernel"]
SIZES = [1, 2, 3, 4, 5, 7, 15, 16, 17, 20, 31, 63, 64, 65, 80]


def cases(tier, seed, rnd):
    r = gen.rng("C11", seed, rnd)
    n = 22 if tier == "quick" else 70
    for i in range(n):
        if i % 4 == 3:
            yield {"kind": "quality", "x64": False, "seed": gen.seed(r), "cost": 4}
        else:
            m = SIZES[(i + 3 * rnd + seed) % len(SIZES)] if i % 2 else int(r.integers(1, 70))
            yield {"kind": "integrity", "n": m, "x64": bool(i % 3), "seed": gen.seed(r), "cost": 2 if m < 16 else 4}
    yield {"kind": "integrity", "n": 256 if tier == "quick" else 300, "x64": False, "seed": gen.seed(r), "cost": 6}


def make(r, mon, n, g, size, spec, spec_s):
    return mon.call(
        "CompressPlusPlus", lib.CompressPlusPlus, coreset_size=size, g=g, kernel=ref.build(spec),
        random_key=lib.jr.key(gen.seed(r)), delta=float(r.choice([0.1, 0.5, 1 / (3 * n)])), sqrt_kernel=ref.build(spec_s),
    )  # fmt: skip


def power4(n):
    p = 0
    while 4 ** (p + 1) <= n:
        p += 1
    return p


def run(case, mon):
    r = gen.rng(case["seed"])
    if case["kind"] == "quality":
        quality(case, mon, r)
    else:
        integrity(case, mon, r)


def integrity(case, mon, r):
    n = case["n"]
    p = power4(n)
    g = int(r.integers(0, p + 1))
    top = min(n, 2**g * 2**p)
    size = int(r.choice([1, top, int(r.integers(1, top + 1))]))
    d = int(r.integers(1, 3))
    fam = str(r.choice(["se", "pcimq", "rq", "lap"]))
    spec, spec_s = gen.kernel(r, fam, 1.0), gen.kernel(r, "se", 0.7)
    solver = make(r, mon, n, g, size, spec, spec_s)
    sup = bool(r.integers(3) == 0)
    fn = lib.eqx.filter_jit(lambda key, ds: lib.eqx.tree_at(lambda s: s.random_key, solver, key).reduce(ds)[0])
    for rep in range(4):
        x = gen.points(r, n, d, str(r.choice(["normal", "dups", "clusters", "same" if rep == 3 else "ints"])))
        y = gen.points(r, n, 1) if sup else None
        w = gen.weights(r, n, "rand" if rep == 2 else "uniform")
        ds = greedy.to_data(x, w, y)
        key = lib.jr.key(gen.seed(r))
        info = {"n": n, "g": g, "size": size, "spec": spec, "x": x}
        cs = mon.call("reduce", fn, key, ds)
        out = greedy.indices(mon, cs, n, size, "reduce")
        mon.check(len(set(out.tolist())) == size, "indices are distinct", out=out, **info)
        pts = np.asarray(cs.points.data, dtype=float)
        mon.check(np.array_equal(pts, x[out]), "points are the rows at the indices", out=out, **info)
        if sup:
            mon.check(np.array_equal(np.asarray(cs.points.supervision, dtype=float), y[out]), "supervision is the rows'", out=out, **info)
        again = np.asarray(mon.call("reduce", fn, key, ds).unweighted_indices)
        mon.check(np.array_equal(again, out), "deterministic for its key", first=out, second=again, **info)
        mon.sig(n, g, size, out.tolist()[:12])
        if rep == 0:
            mon.sample(out=out, **info)


def quality(case, mon, r):
    """Mean MMD no worse than uniform samples', on ordered data."""
    n = int(r.choice([20, 40, 63, 64, 90]))
    p = power4(n)
    g = int(r.integers(0, p)) if r.integers(3) else p
    top = min(n // 2, 2**g * 2**p)
    size = int(r.integers(max(2, top // 2), top + 1))
    d = int(r.integers(1, 3))
    # the tail of the dataset is a cluster of its own, with (n - 4^p)/n of the mass or a quarter
    x = gen.points(r, n, d)
    tail = max(n - 4**p, n // 4)
    x[n - tail :] += 6.0
    if r.integers(2):
        x = x[::-1].copy()
    ls = float(np.float32(r.uniform(0.8, 2.0)))
    spec, spec_s = ["se", ls, 1.0], ["se", float(np.float32(ls / math.sqrt(2))), 1.0]
    kern = ref.ref(spec)
    solver = make(r, mon, n, g, size, spec, spec_s)
    ds = greedy.to_data(x)
    runs = 200
    keys = lib.jr.split(lib.jr.key(gen.seed(r)), runs)

    def one(key):
        return lib.eqx.tree_at(lambda s: s.random_key, solver, key).reduce(ds)[0].unweighted_indices

    outs = np.asarray(mon.call("reduce", lib.jax.jit(lib.jax.vmap(one)), keys))
    info = {"n": n, "g": g, "size": size, "spec": spec, "x": x}
    mon.need(outs.shape == (runs, size), "wrong size", got=outs.shape, **info)
    mon.need(bool(np.all((outs >= 0) & (outs < n))), "index out of range", got=outs[:3], **info)
    gram = kern.k(x, x)
    mean = gram.mean(axis=1)
    total = gram.mean()

    def mmd(i):
        return math.sqrt(max(0.0, gram[np.ix_(i, i)].mean() + total - 2 * mean[i].mean()))

    got = np.array([mmd(o) for o in outs])
    rand = np.array([mmd(r.permutation(n)[:size]) for _ in range(runs)])
    se = math.sqrt(got.var() / runs + rand.var() / runs)
    mon.check(
        got.mean() <= rand.mean() + 4 * se + 1e-6, "mean MMD is worse than uniform sampling's", got=got.mean(), uniform=rand.mean(), **info
    )
    mon.margins["mean MMD over uniform sampling's"] = max(
        mon.margins.get("mean MMD over uniform sampling's", 0.0), got.mean() / max(rand.mean(), 1e-12)
    )
    mon.sig("quality", n, g, size, outs[0].tolist())
    mon.sample(mean_mmd=got.mean(), uniform=rand.mean(), **info)
