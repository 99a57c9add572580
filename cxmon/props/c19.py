"""KSD and AMCMD equal their defining expressions."""

import numpy as np
from scipy import stats

from cxmon import gen, lib, ref, scores

RULE = (
    "a case draws datasets, kernels, a score (explicit, matched or default), flags and block "
    "settings and compares the metric with a float64 reference; non-trivial: squared reference "
    "value above 1e-9 of its terms' scale; distinct: by metric, score source, flags, kernel, sizes, blocks"
)
ASSUMPTIONS = [
    "reference weights are uniform when the score is fitted from the reference data (coreax documents no weighting there)",
    "the KDE of the entropic term is scipy.stats.gaussian_kde with the same bandwidth factor",
]
FAMS = ["se", "pcimq", "rq", "smat", "scomp"]


def cases(tier, seed, rnd):
    r = gen.rng("C19", seed, rnd)
    n = 30 if tier == "quick" else 90
    for i in range(n):
        yield {
            "kind": "ksd", "x64": True, "seed": gen.seed(r), "flags": [bool(i & 1), bool(i & 2)],
            "source": ["kernel", "default", "kdm", "override", "custom"][i % 5], "cost": 3,
        }  # fmt: skip
    for i in range(n // 2):
        yield {"kind": "amcmd", "x64": i % 5 != 4, "seed": gen.seed(r), "cost": 1}


def run(case, mon):
    r = gen.rng(case["seed"])
    (ksd if case["kind"] == "ksd" else amcmd)(case, mon, r)


def ksd(case, mon, r):
    jnp = lib.jnp
    d = int(r.integers(1, 4))
    n, m = int(r.choice([6, 8, 12])), int(r.choice([1, 2, 5, 9]))
    lap, reg = case["flags"]
    pick = scores.NAMES[int(r.integers(len(scores.NAMES)))]
    if lap and r.integers(2):  # curvatures of mixed sign decide the Laplace correction
        pick, d, m = "saddle", max(d, 2), max(m, 5)
    geom = str(r.choice(["normal", "clusters", "shift"]))
    z = gen.points(r, n + m, d, geom)
    x, y = z[:n], z[n:]
    wy = gen.weights(r, m, str(r.choice(["none", "rand", "none", "zeros"])))
    spec = gen.kernel(r, FAMS[int(r.integers(len(FAMS)))], gen.scale_of(z))
    base = ref.ref(spec)
    ls_attr = spec[1] if not isinstance(spec[1], list) else None
    source = case["source"]
    wx = None
    if source == "kernel":
        sc = scores.make(r, pick, d)
        kern, matcher = lib.SteinKernel(ref.build(spec), sc.jax), None
        wx = gen.weights(r, n, str(r.choice(["none", "rand"])))
    elif source == "default":
        kern, matcher = ref.build(spec), None
        sc = scores.kde(x, None, 1.0 if ls_attr is None else ls_attr)
    elif source == "custom":
        sc = scores.make(r, pick, d)
        seen = []

        class Matcher(lib.ScoreMatching):
            def match(self, x):
                seen.append(np.asarray(x))
                return sc.jax

        kern, matcher = ref.build(spec), Matcher()
    else:
        ls = float(np.float32(gen.scale_of(z) * gen.par(r, 0.7, 1.5)))
        matcher = lib.KernelDensityMatching(length_scale=ls)
        sc = scores.kde(x, None, ls)
        kern = ref.build(spec)
        if source == "override":
            kern = lib.SteinKernel(kern, lambda t: 100.0 + 3.0 * t)
    metric = lib.KSD(kern, score_matching=matcher)
    sk = ref.Stein(base, sc.np)
    g = sk.k(y, y)
    ay = ref.norm_weights(wy, m)
    terms = [float(ay @ g @ ay)]
    if lap:
        terms.append(float(sc.lap(y).sum()) / m**2)
    if reg:
        kde = stats.gaussian_kde(x.T, weights=ref.norm_weights(wx, n), bw_method=ls_attr)
        terms.append(-float(kde.logpdf(y.T).mean()) / m)
    want = max(0.0, sum(terms))
    scale = np.max(np.abs(g)) + sum(abs(t) for t in terms)
    dx = lib.Data(jnp.asarray(x, dtype=float), None if wx is None else jnp.asarray(wx, dtype=float))
    dy = lib.Data(jnp.asarray(y, dtype=float), None if wy is None else jnp.asarray(wy, dtype=float))
    info = {"spec": spec, "score": sc.name, "source": source, "flags": [lap, reg], "x": x, "y": y, "wy": wy}
    for rep in range(2):
        bs = [None, 1, 2, m, m + 3][int(r.integers(5))]
        got = mon.call("KSD.compute", metric.compute, dx, dy, laplace_correct=lap, regularise=reg, block_size=bs)
        mon.close(np.asarray(got, dtype=float) ** 2, np.asarray(want), "KSD equals its definition", atol=1e-9 * scale, block_size=bs, **info)
        if source == "custom":
            mon.check(len(seen) == rep + 1 and np.array_equal(seen[-1], x), "the score is matched to the reference data", seen=seen, **info)
        if want > 1e-9 * scale:
            mon.sig("ksd", source, lap, reg, spec[0], n, m, bs, d)
            if rep == 0:
                mon.sample(value=got, want=np.sqrt(want), **info)


def amcmd(case, mon, r):
    jnp = lib.jnp
    d, p = int(r.integers(1, 4)), int(r.integers(1, 3))
    n, m, q = int(r.choice([2, 5, 9])), int(r.choice([1, 4, 8])), int(r.choice([1, 3, 6]))
    x1, x2, x3 = gen.points(r, n, d), gen.points(r, m, d), gen.points(r, q, d)
    y1, y2 = gen.points(r, n, p), gen.points(r, m, p)
    spec = gen.kernel(r, str(r.choice(["se", "rq", "pcimq", "smat", "lap"])), gen.scale_of(np.concatenate([x1, x2])))
    spec_r = gen.kernel(r, str(r.choice(["se", "rq", "lin", "lap"])), gen.scale_of(np.concatenate([y1, y2])))
    lam = float([0.05, 0.3, 1.0, 4.0][int(r.integers(4))])
    k, kr = ref.ref(spec), ref.ref(spec_r)
    metric = lib.AMCMD(ref.build(spec), ref.build(spec_r), regularisation_parameter=lam)
    weighting = bool(r.integers(2))

    def want2(a, ya, b, yb, w):
        la = np.linalg.solve(k.k(a, a) + lam * np.eye(len(a)), k.k(a, w))
        lb = np.linalg.solve(k.k(b, b) + lam * np.eye(len(b)), k.k(b, w))
        t = (
            np.einsum("iq,ij,jq->q", la, kr.k(ya, ya), la)
            + np.einsum("iq,ij,jq->q", lb, kr.k(yb, yb), lb)
            - 2 * np.einsum("iq,ij,jq->q", la, kr.k(ya, yb), lb)
        )
        return max(0.0, float(t.mean())), np.max(np.abs(kr.k(ya, ya))) + np.max(np.abs(kr.k(yb, yb)))

    def sup(x, y):
        w = gen.weights(r, len(x), str(r.choice(["none", "rand"])))
        w = None if w is None else jnp.asarray(w, dtype=float)
        return lib.SupervisedData(jnp.asarray(x, dtype=float), jnp.asarray(y, dtype=float), w)

    tol = 1e-9 if case["x64"] else 3e-3
    kw = {"weighting_data": lib.Data(jnp.asarray(x3, dtype=float))} if weighting else {}
    w = x3 if weighting else x1
    want, scale = want2(x1, y1, x2, y2, w)
    info = {"spec": spec, "spec_r": spec_r, "lam": lam, "weighting": weighting, "x1": x1, "y1": y1, "x2": x2, "y2": y2}
    got = mon.call("AMCMD.compute", metric.compute, sup(x1, y1), sup(x2, y2), **kw)
    scale = scale * max(n, m)
    mon.close(np.asarray(got, dtype=float) ** 2, np.asarray(want), "AMCMD equals its definition", atol=tol * scale, **info)
    if want > 1e-9 * scale:
        mon.sig("amcmd", spec[0], spec_r[0], n, m, q if weighting else 0, lam)
        mon.sample(value=got, want=np.sqrt(want), **info)
    z = mon.call("AMCMD.compute", metric.compute, sup(x1, y1), sup(x1, y1), **kw)
    mon.check(float(z) ** 2 <= tol * scale, "AMCMD is zero for identical datasets", got=z, **info)
    p1, p2 = r.permutation(n), r.permutation(m)
    got2 = mon.call("AMCMD.compute", metric.compute, sup(x1[p1], y1[p1]), sup(x2[p2], y2[p2]), **kw)
    mon.close(np.asarray(got2, dtype=float) ** 2, np.asarray(want), "AMCMD is unaffected by reordering", atol=tol * scale, **info)
