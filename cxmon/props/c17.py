"""The Stein kernel and the square-root kernel."""

import numpy as np

from cxmon import gen, lib, ref, scores
from cxmon.props.c15 import shape_of

RULE = (
    "a case draws a base kernel (simple or composite), a score function and points; Stein kernel "
    "values are compared with the operator applied to the analytic reference; the zero-mean "
    "property is integrated by dense quadrature; square-root kernels are convolved by "
    "quadrature; distinct: by base-kernel structure, score, dimension, geometry"
)
ASSUMPTIONS = ["base kernels are twice differentiable; PeriodicKernel with output_scale != 1 is excluded (known finding of C16)"]

SCORES = scores.NAMES
FAMS = ["se", "pcimq", "rq", "smat", "lin", "poly", "scomp", "scomp"]


def cases(tier, seed, rnd):
    r = gen.rng("C17", seed, rnd)
    reps = 4 if tier == "quick" else 12
    for fam in FAMS + ["rough"]:
        for x64 in (True, False):
            yield {"kind": "stein", "family": fam, "x64": x64, "seed": gen.seed(r), "reps": reps if x64 else 2,
                   "d": int(r.integers(1, 4)), "cost": 3}  # fmt: skip
    for fam in ("se", "pcimq", "rq", "smat", "scomp"):
        yield {"kind": "zero-mean", "family": fam, "x64": True, "seed": gen.seed(r), "cost": 2}
    yield {"kind": "sqrt", "x64": True, "seed": gen.seed(r), "reps": reps, "cost": 2}
    yield {"kind": "nested", "x64": True, "seed": gen.seed(r), "cost": 4}


def run(case, mon):
    r = gen.rng(case["seed"])
    {"stein": stein, "zero-mean": zero_mean, "sqrt": sqrt, "nested": nested}[case["kind"]](case, mon, r)


def stein(case, mon, r):
    jnp = lib.jnp
    d, fam = case["d"], case["family"]
    for rep in range(case["reps"]):
        geom = "normal" if fam == "rough" else str(r.choice(["normal", "dups", "clusters", "shift"]))
        z = gen.points(r, 7, d, geom)
        x, y = z[:4], z[4:]
        ls = gen.scale_of(z)
        if fam == "rough":
            spec = [gen.kernel(r, "exp", ls), gen.kernel(r, "lap", ls), ["per", 1.5, 1.0, 4.0 * ls]][int(r.integers(3))]
        else:
            spec = gen.kernel(r, fam, ls)
        name = SCORES[int(r.integers(len(SCORES)))]
        sc = scores.make(r, name, d)
        js, ns = sc.jax, sc.np
        sk = lib.SteinKernel(ref.build(spec), js)
        rk = ref.Stein(ref.ref(spec), ns)
        base = ref.ref(spec)
        want = rk.k(x, y)
        big = np.max(np.abs(base.div(x, y))) + np.max(np.abs(want))
        sx, sy = np.max(np.abs(ns(x))), np.max(np.abs(ns(y)))
        big += d * (sy * np.max(np.abs(base.gx(x, y))) + sx * np.max(np.abs(base.gy(x, y))) + sx * sy * np.max(np.abs(base.k(x, y))))
        rt = 1e-9 if case["x64"] else 1e-3
        got = mon.call("SteinKernel.compute", sk.compute, jnp.asarray(x, dtype=float), jnp.asarray(y, dtype=float))
        mon.close(got, want, "Stein kernel equals the Stein operator on its base", rtol=rt, scale=big, spec=spec, score=name, x=x, y=y)
        back = mon.call("SteinKernel.compute", sk.compute, jnp.asarray(y, dtype=float), jnp.asarray(x, dtype=float))
        mon.close(back, np.asarray(got).T, "Stein kernel is symmetric", rtol=rt, scale=big, spec=spec, score=name)
        if rep == 0:
            e = mon.call("SteinKernel.compute_elementwise", sk.compute_elementwise, jnp.asarray(x[0], dtype=float), jnp.asarray(y[0], dtype=float))
            mon.close(e, want[0, 0], "Stein kernel elementwise", rtol=rt, scale=big, spec=spec, score=name)
            mon.sample(spec=spec, score=name, x=x, y=y, got=got, want=want)
        if case["x64"] and fam != "rough":
            g = np.asarray(mon.call("SteinKernel.compute", sk.compute, jnp.asarray(z), jnp.asarray(z)))
            low = np.linalg.eigvalsh((g + g.T) / 2)[0]
            mon.check(low >= -1e-8 * len(z) * max(np.max(np.abs(g)), big), "Stein kernel positive semi-definite", spec=spec, score=name, min_eig=low)
        mon.sig(shape_of(spec), name, d, geom, case["x64"])


def zero_mean(case, mon, r):
    """E_{y~p} k_p(x, y) = 0 by dense quadrature against the standard normal and a shifted normal."""
    jnp = lib.jnp
    spec = gen.kernel(r, case["family"], 2.0)
    nodes = np.linspace(-9, 9, 6001)
    w = np.exp(-nodes * nodes / 2)
    w = w / w.sum()
    x = jnp.asarray(gen.points(r, 5, 1))
    mu, sd = float(gen.f32(r.normal())), gen.par(r)
    for m, s in ((0.0, 1.0), (mu, sd)):
        sk = lib.SteinKernel(ref.build(spec), lambda t, m=m, s=s: -(t - m) / s**2)
        g = np.asarray(mon.call("SteinKernel.compute", sk.compute, x, jnp.asarray((m + s * nodes)[:, None])))
        mean = g @ w
        mon.close(mean, np.zeros(5), "Stein kernel has zero mean under the density", atol=1e-4 * np.max(np.abs(g[:, np.abs(nodes) < 4])), spec=spec, mu=m, sd=s)
        mon.sig("zero", shape_of(spec))


def sqrt(case, mon, r):
    """Self-convolution of the square-root kernel is the kernel."""
    jnp = lib.jnp
    t = np.linspace(-1, 1, 401)
    for rep in range(case["reps"]):
        ls, os = gen.par(r), gen.par(r)
        d = int(r.integers(1, 6))
        kern = lib.SquaredExponentialKernel(length_scale=ls, output_scale=os)
        sq = mon.call("get_sqrt_kernel", kern.get_sqrt_kernel, d)
        # the result is isotropic and separable: integrate one axis at a time
        z = 12 * ls * t
        h = z[1] - z[0]
        x0 = gen.f32(r.normal(size=d) * ls)
        y0 = gen.f32(r.normal(size=d) * ls)
        # k_sqrt(u, v) = c * prod_i g(u_i - v_i), read off from the returned kernel itself
        c = float(sq.compute(jnp.zeros(d), jnp.zeros(d))[0, 0])
        prod = c * c
        for i in range(d):
            e = np.zeros((len(z), d))
            e[:, i] = z
            gi = np.asarray(sq.compute(jnp.asarray(e), jnp.zeros((1, d))))[:, 0] / c
            a = np.exp(np.interp(np.abs(z - x0[i]), z[200:], np.log(np.maximum(gi[200:], 1e-300))))
            b = np.exp(np.interp(np.abs(z - y0[i]), z[200:], np.log(np.maximum(gi[200:], 1e-300))))
            prod *= np.sum(a * b) * h
        want = float(kern.compute(jnp.asarray(x0), jnp.asarray(y0))[0, 0])
        mon.close(prod, want, "square-root kernel self-convolves to the kernel", rtol=2e-2, ls=ls, os=os, d=d)
        # closed form, tight
        cw = np.sqrt(os) * (2 / (np.pi * ls**2)) ** (d / 4)
        mon.close(c, cw, "square-root kernel amplitude", rtol=1e-5, ls=ls, os=os, d=d)
        v = sq.compute(jnp.asarray(x0), jnp.asarray(y0))[0, 0]
        mon.close(v, cw * np.exp(-np.sum((x0 - y0) ** 2) / ls**2), "square-root kernel length scale", rtol=1e-5, scale=cw, ls=ls, d=d)
        mon.sig("sqrt", ls, os, d)


def nested(case, mon, r):
    """A Stein kernel of a Stein kernel uses the inherited derivatives."""
    jnp = lib.jnp
    spec = ["se", gen.par(r), gen.par(r)]
    inner = lib.SteinKernel(ref.build(spec), lambda x: -x)
    outer = lib.SteinKernel(inner, lambda x: -0.5 * x)
    rin = ref.Stein(ref.ref(spec), lambda x: -x)
    x, y = gen.points(r, 3, 2), gen.points(r, 2, 2)
    h = 1e-4

    def gx(a, b):
        return np.stack([(rin.k(a + h * e, b) - rin.k(a - h * e, b)) / (2 * h) for e in np.eye(2)], -1)

    def gy(a, b):
        return np.stack([(rin.k(a, b + h * e) - rin.k(a, b - h * e)) / (2 * h) for e in np.eye(2)], -1)

    div = sum((gy(x + h * e, y) - gy(x - h * e, y))[..., i] / (2 * h) for i, e in enumerate(np.eye(2)))
    want = div + np.einsum("nd,nmd->nm", -0.5 * x, gy(x, y)) + np.einsum("md,nmd->nm", -0.5 * y, gx(x, y))
    want = want + 0.25 * (x @ y.T) * rin.k(x, y)
    got = mon.call("nested SteinKernel.compute", outer.compute, jnp.asarray(x), jnp.asarray(y))
    mon.close(got, want, "nested Stein kernel", rtol=1e-5, atol=1e-5, spec=spec)
    mon.sig("nested")
