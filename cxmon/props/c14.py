"""compute_mean and gramian_row_mean equal the weighted matrix mean for every blocking."""

import numpy as np

from cxmon import gen, lib, ref

RULE = (
    "a case draws shapes, weights, a kernel, an axis and several (block_size, unroll) settings; "
    "non-trivial: the kernel matrix is not constant and n*m > 1; distinct: by (n, m, axis, block "
    "sizes, unroll, weight kinds, input form)"
)
ASSUMPTIONS = ["kernels are symmetric (documented requirement for axis=0)"]

FAMS = ["se", "pcimq", "rq", "mat", "exp", "lap", "lin", "poly", "comp"]


def cases(tier, seed, rnd):
    r = gen.rng("C14", seed, rnd)
    n_cases = 72 if tier == "quick" else 120
    for i in range(n_cases):
        yield {"kind": "mean", "x64": i % 4 != 0, "seed": gen.seed(r), "reps": 4, "cost": 1}
    for i in range(n_cases // 4):
        yield {"kind": "gramian", "x64": i % 4 != 0, "seed": gen.seed(r), "reps": 3, "cost": 1}


def block(r, n, m):
    def one(k):
        return [None, 1, 2, 3, k, max(1, k - 1), k + 1, 2 * k + 3, 10**6][int(r.integers(9))]

    mode = int(r.integers(4))
    if mode == 0:
        return one(max(n, m))
    if mode == 1:
        return one(n)
    return (one(n), one(m))


def unroll(r):
    return [1, 2, 3, True, False, (1, 2), (True, 1), (2, True)][int(r.integers(8))]


def operand(r, n, d, w_kind, form, geom):
    x = gen.points(r, n, d, geom)
    w = gen.weights(r, n, w_kind)
    jnp = lib.jnp
    jx = jnp.asarray(x, dtype=float)
    jw = w if w is None or np.ndim(w) == 0 else jnp.asarray(w, dtype=float)
    if form == "array":
        return jx, x, None
    if form == "scalar":
        return float(x[0, 0]), x[:1, :1], None
    if form == "supervised":
        return lib.SupervisedData(jx, jnp.asarray(gen.points(r, n, 2), dtype=float), jw), x, w
    return lib.Data(jx, jw), x, w


def run(case, mon):
    r = gen.rng(case["seed"])
    tol = 1e-10 if case["x64"] else 5e-5
    d = int(r.choice([1, 1, 2, 3]))
    n, m = int(r.choice([1, 2, 3, 5, 8, 13])), int(r.choice([1, 2, 4, 7, 12]))
    geom = str(r.choice(["normal", "dups", "ints", "clusters", "grid"]))
    wk = [str(r.choice(gen.WKINDS)) for _ in range(2)]
    forms = [str(r.choice(["data", "data", "array", "supervised"])) for _ in range(2)]
    if d == 1 and r.integers(8) == 0:
        forms[0], n = "scalar", 1
    a, x, wx = operand(r, n, d, wk[0], forms[0], geom)
    b, y, wy = operand(r, m, d, wk[1], forms[1], geom)
    spec = gen.kernel(r, FAMS[int(r.integers(len(FAMS)))], gen.scale_of(np.concatenate([x, y])))
    kern, rk = ref.build(spec), ref.ref(spec)
    if case["kind"] == "gramian":
        g = rk.k(x, x)
        want = ref.norm_weights(wx, n) @ g
        scale = np.max(np.abs(g))
        for _ in range(case["reps"]):
            bs, un = block(r, n, n), unroll(r)
            got = mon.call("gramian_row_mean", kern.gramian_row_mean, a, block_size=bs, unroll=un)
            mon.close(got, want, "gramian_row_mean equals the weighted row mean", rtol=tol, scale=scale,
                      spec=spec, n=n, block_size=bs, unroll=un, x=x, weights=wx)  # fmt: skip
            if n > 1 and np.ptp(g) > 0:
                mon.sig("gramian", n, bs, un, wk[0], forms[0])
        return
    g = rk.k(x, y)
    ax, ay = ref.norm_weights(wx, n), ref.norm_weights(wy, m)
    scale = np.max(np.abs(g))
    for rep in range(case["reps"]):
        axis = [None, 0, 1][int(r.integers(3))]
        want = {None: ax @ g @ ay, 0: ax @ g, 1: g @ ay}[axis]
        bs, un = block(r, n, m), unroll(r)
        got = mon.call("compute_mean", kern.compute_mean, a, b, axis=axis, block_size=bs, unroll=un)
        mon.close(got, want, "compute_mean equals the weighted mean", rtol=tol, scale=scale, spec=spec,
                  axis=axis, n=n, m=m, block_size=bs, unroll=un, wx=wx, wy=wy, forms=forms)  # fmt: skip
        if n * m > 1 and np.ptp(g) > 0:
            mon.sig(n, m, axis, bs, un, wk, forms)
        if rep == 0:
            mon.sample(spec=spec, n=n, m=m, axis=axis, block_size=bs, unroll=un, weights=[wx, wy], got=got, want=want)
