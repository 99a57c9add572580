"""MMD and JMMD are the weighted discrepancies they define."""

import numpy as np

from cxmon import gen, lib, ref
from cxmon.props.c14 import block, unroll

RULE = (
    "a case draws two or three weighted (supervised) datasets, kernels and block settings and "
    "observes the metric value and its behaviour under metric-preserving transformations; "
    "non-trivial: the reference MMD is above 1e-6 of the kernel scale; distinct: by metric, kernel "
    "family, sizes, weight kinds, block settings"
)
ASSUMPTIONS = ["weights are non-negative with a positive sum"]
FAMS = ["se", "pcimq", "rq", "mat", "exp", "lap", "lin", "poly", "comp"]
TRANSFORMS = ["symmetry", "permute", "split", "zeropad", "wscale", "self", "triangle"]


def cases(tier, seed, rnd):
    r = gen.rng("C18", seed, rnd)
    n = 44 if tier == "quick" else 140
    for i in range(n):
        yield {"kind": ["mmd", "mmd", "jmmd"][i % 3], "x64": i % 4 != 3, "seed": gen.seed(r), "cost": 1}


def dataset(r, n, d, p, sup, wk, geom):
    x = gen.points(r, n, d, geom)
    y = gen.points(r, n, p) if sup else None
    return [x, y, gen.weights(r, n, wk)]


def to_cx(ds):
    jnp = lib.jnp
    x, y, w = ds
    jw = w if w is None or np.ndim(w) == 0 else jnp.asarray(w, dtype=float)
    if y is None:
        return lib.Data(jnp.asarray(x, dtype=float), jw)
    return lib.SupervisedData(jnp.asarray(x, dtype=float), jnp.asarray(y, dtype=float), jw)


def gram(k, kr, a, b):
    g = k.k(a[0], b[0])
    if kr is not None:
        g = g * kr.k(a[1], b[1])
    return g


def want2(k, kr, a, b):
    wa, wb = ref.norm_weights(a[2], len(a[0])), ref.norm_weights(b[2], len(b[0]))
    return float(wa @ gram(k, kr, a, a) @ wa + wb @ gram(k, kr, b, b) @ wb - 2 * wa @ gram(k, kr, a, b) @ wb)


def transform(r, ds, how):
    """A dataset with the same weighted empirical measure."""
    x, y, w = ds
    n = len(x)
    w = np.ones(n) if w is None else np.broadcast_to(np.asarray(w, float), n).copy()
    take = lambda a, i: None if a is None else a[i]  # noqa: E731
    if how == "permute":
        p = r.permutation(n)
        return [x[p], take(y, p), w[p]]
    if how == "split":
        i = np.concatenate([np.arange(n), r.integers(0, n, size=int(r.integers(1, 4)))])
        cnt = np.bincount(i, minlength=n)
        p = r.permutation(len(i))
        return [x[i[p]], take(y, i[p]), gen.f32(w[i[p]]) / cnt[i[p]]]
    if how == "zeropad":
        k = int(r.integers(1, 5))
        xs = np.concatenate([x, gen.f32(50 * r.normal(size=(k, x.shape[1])))])
        ys = None if y is None else np.concatenate([y, gen.f32(50 * r.normal(size=(k, y.shape[1])))])
        p = r.permutation(n + k)
        return [xs[p], take(ys, p), np.concatenate([w, np.zeros(k)])[p]]
    if how == "wscale":
        return [x, y, w * float([0.125, 3.0, 1024.0, 1e-3][int(r.integers(4))])]
    return [x, y, w]


def run(case, mon):
    r = gen.rng(case["seed"])
    sup = case["kind"] == "jmmd" or r.integers(5) == 0
    joint = case["kind"] == "jmmd"
    d, p = int(r.integers(1, 4)), int(r.integers(1, 3))
    geom = str(r.choice(["normal", "dups", "ints", "clusters", "shift"]))
    wks = [str(r.choice(gen.WKINDS)) for _ in range(3)]
    sizes = [int(r.choice([1, 2, 4, 7, 11])) for _ in range(3)]
    a, b, c = (dataset(r, sizes[i], d, p, sup, wks[i], geom) for i in range(3))
    spec = gen.kernel(r, FAMS[int(r.integers(len(FAMS)))], gen.scale_of(np.concatenate([a[0], b[0]])))
    k = ref.ref(spec)
    if joint:
        spec_r = gen.kernel(r, str(r.choice(["se", "rq", "lin", "lap"])), gen.scale_of(np.concatenate([a[1], b[1]])))
        kr = ref.ref(spec_r)
        metric = lib.JMMD(ref.build(spec), ref.build(spec_r))
    else:
        spec_r, kr = None, None
        metric = lib.MMD(ref.build(spec))
    scale = max(np.max(np.abs(gram(k, kr, s, s))) for s in (a, b, c))
    tol2 = (1e-11 if case["x64"] else 3e-5) * scale

    def value(u, v, **kw):
        got = mon.call(case["kind"] + ".compute", metric.compute, to_cx(u), to_cx(v), **kw)
        got = np.asarray(got)
        mon.need(got.shape == () and np.isfinite(got) and got >= 0, "finite, scalar and non-negative", got=got, spec=spec)
        return float(got)

    w_ab = max(0.0, want2(k, kr, a, b))
    v_ab = value(a, b)
    info = {"spec": spec, "spec_r": spec_r, "a": a, "b": b}
    mon.close(v_ab**2, w_ab, "equals the weighted discrepancy", atol=tol2, **info)
    for _ in range(2):
        if joint:
            break
        bs, un = block(r, sizes[0], sizes[1]), unroll(r)
        v = value(a, b, block_size=bs, unroll=un)
        mon.close(v**2, w_ab, "does not depend on block_size or unroll", atol=tol2, block_size=bs, unroll=un, **info)
        mon.sig(case["kind"], spec[0], sizes[:2], wks[:2], bs, un)
    if w_ab > 1e-6 * scale:
        mon.sig(case["kind"], spec[0], sizes[:2], wks[:2])
        mon.sample(spec=spec, spec_r=spec_r, a=a, b=b, value=v_ab, want=np.sqrt(w_ab))
    for how in [TRANSFORMS[i] for i in r.permutation(len(TRANSFORMS))[:3]]:
        if how == "symmetry":
            mon.close(value(b, a) ** 2, v_ab**2, "symmetric", atol=2 * tol2, **info)
        elif how == "self":
            other = transform(r, a, str(r.choice(["permute", "split", "zeropad", "wscale"])))
            z = value(a, other)
            mon.check(z**2 <= 2 * tol2, "zero for equal weighted empirical measures", got=z, other=other, **info)
        elif how == "triangle":
            v_bc, v_ac = value(b, c), value(a, c)
            slack = 3 * np.sqrt(tol2)
            mon.check(v_ac <= v_ab + v_bc + slack, "triangle inequality", ac=v_ac, ab=v_ab, bc=v_bc, **info)
        else:
            v = value(transform(r, a, how), b)
            mon.close(v**2, v_ab**2, "invariant under equal weighted measures", atol=4 * tol2, how=how, **info)
        mon.sig(case["kind"], how, spec[0])
