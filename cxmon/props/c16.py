"""Kernel derivatives are the true derivatives."""

import numpy as np

from cxmon import gen, lib, ref
from cxmon.props.c15 import shape_of

RULE = (
    "a case draws kernels of one family (or random expression trees, or a user-defined "
    "kernel relying on the inherited automatic differentiation) and point sets, and compares "
    "all six derivative methods with analytic float64 references; non-trivial: some reference "
    "divergence is non-zero; distinct: by kernel structure, geometry, dimension, dtype"
)
ASSUMPTIONS = [
    "reference derivatives are derived from the radial / inner-product form of each kernel "
    "(self-checked against finite differences of the documented formulas)",
    "points where the kernel is documented as not differentiable are excluded",
]

FAMILIES = [
    "se", "pcimq", "rq", "mat", "smat", "exp", "lap", "lin", "poly", "per1", "lper1", "poi",
    "comp", "scomp", "scomp", "same", "custom", "zero",
]  # fmt: skip
SMOOTH_GEOMS = ["normal", "dups", "shift", "grid", "near", "far", "small", "big"]
ROUGH_GEOMS = ["normal", "far", "shift", "big"]


def cases(tier, seed, rnd):
    r = gen.rng("C16", seed, rnd)
    reps = 6 if tier == "quick" else 20
    for fam in FAMILIES:
        for x64 in (True, False):
            d = 1 if fam == "poi" else int(r.choice([1, 2, 3, 5]))
            yield {
                "kind": "derivatives", "family": fam, "x64": x64, "seed": gen.seed(r),
                "reps": reps if x64 else max(2, reps // 3),
                "dims": [d] + [[4, 3], [1, 4], [5, 1], [3, 3]][int(r.integers(4))],
                "cost": 4 if fam in ("mat", "smat", "comp", "scomp", "same") else 2,
            }  # fmt: skip
    yield {"kind": "periodic", "x64": True, "seed": gen.seed(r), "reps": 3, "dims": [2, 4, 3], "cost": 3}


class PerScaled(ref.Per):
    """The divergence that PeriodicKernel computes at the pinned commit (known finding)."""

    def div(self, x, y):
        r = ref._dist(x, y)
        of = 4 * self.w * self.os / self.l2
        s, c = np.sin(self.w * r), np.cos(self.w * r)
        e = np.exp(-2 * s * s / self.l2)
        return super().div(x, y) - of**2 * s * s * c * c * e * (1 - 1 / self.os)


def custom_kernel(spec):
    """A user-defined kernel with only compute_elementwise."""
    jnp = lib.jnp
    ls, os = spec[1], spec[2]

    class UserKernel(lib.ScalarValuedKernel):
        def compute_elementwise(self, x, y):
            return os * jnp.exp(-jnp.sum((x - y) ** 2) / (2 * ls**2)) + 0.25 * jnp.dot(x, y) ** 2

    return UserKernel()


def draw(r, fam, dims, geom):
    d, n, m = dims
    if geom == "near":
        x = gen.points(r, n, d)
        y = x[r.integers(0, n, size=m)] + 2.0**-10 * r.integers(-1, 2, size=(m, d))
    elif geom == "far":
        x, y = gen.points(r, n, d), gen.points(r, m, d) + 2.0
    elif geom == "zero":
        x, y = gen.points(r, n, d), gen.points(r, m, d)
        x[0] = 0.0
    else:
        z = gen.points(r, n + m, d, geom)
        x, y = z[:n], z[n:]
    if fam == "poi":
        x, y = np.mod(x, 6.25), np.mod(y, 6.25)
    return gen.f32(x), gen.f32(y)


def make(r, fam, ls):
    if fam == "same":
        base = gen.kernel(r, str(r.choice(["se", "rq", "smat", "lin"])), ls)
        op = ["mul", "cmul", "add"][int(r.integers(3))]
        return [op, base, base]
    if fam == "per1":
        return ["per", gen.par(r), 1.0, 2 * ls * gen.par(r)]
    if fam == "lper1":
        return ["lper", gen.par(r), 1.0, 2 * ls * gen.par(r), float(np.float32(ls * gen.par(r))), gen.par(r)]
    if fam == "zero":
        base = ["lin", gen.par(r), 0.0] if r.integers(2) else ["poly", gen.par(r), 0.0, int(r.integers(2, 4))]
        return [["pow", base, int(r.integers(1, 4))], base, ["mulc", base, 2]][int(r.integers(3))]
    if fam == "custom":
        return ["se", float(np.float32(ls * gen.par(r))), gen.par(r)]
    return gen.kernel(r, fam, ls)


def run(case, mon):
    if case["kind"] == "periodic":
        return run_periodic(case, mon)
    r = gen.rng(case["seed"])
    jnp = lib.jnp
    fam, dims, x64 = case["family"], case["dims"], case["x64"]
    for rep in range(case["reps"]):
        rough = fam in ("exp", "lap", "mat", "comp", "per1", "lper1")
        geoms = ["zero", "normal"] if fam == "zero" else ROUGH_GEOMS if rough else SMOOTH_GEOMS
        if fam in ("poi", "custom"):
            geoms = ["normal", "dups", "near"]
        geom = geoms[int(r.integers(len(geoms)))]
        x, y = draw(r, fam, dims, geom)
        if rough and np.min(np.abs(x[:, None] - y[None])) < 1e-3:
            y = gen.f32(y + 0.37)
            if np.min(np.abs(x[:, None] - y[None])) < 1e-3:
                continue
        ls = gen.scale_of(np.concatenate([x, y]))
        spec = make(r, fam, ls)
        rk = ref.ref(spec)
        if fam == "custom":
            rk = ref.Sum(rk, ref.Poly(0.25, 0.0, 2))
            kern = custom_kernel(spec)
        else:
            kern = mon.call("construct", ref.build, spec)
        compare(case, mon, r, kern, rk, spec, x, y, geom, rep, x64, jnp)


def compare(case, mon, r, kern, rk, spec, x, y, geom, rep, x64, jnp):
    jx, jy = jnp.asarray(x, dtype=float), jnp.asarray(y, dtype=float)
    wx, wy, wd = rk.gx(x, y), rk.gy(x, y), rk.div(x, y)
    # sizes before cancellation: derivatives of neighbouring argument pairs
    def scale(fun):
        vals = [np.max(np.abs(fun(x, y)))]
        if rk.smooth:
            vals += [np.max(np.abs(fun(x, x))), np.max(np.abs(fun(y, y)))]
        return max(vals)

    er, rt = (1e-8, 1e-9) if x64 else (1e-3, 1e-3)
    sx, sy, sd = scale(rk.gx), scale(rk.gy), scale(rk.div)
    tiny = 1e-30
    gx = mon.call("grad_x", kern.grad_x, jx, jy)
    mon.close(gx, wx, "grad_x", ertol=er, rtol=rt, scale=sx, atol=tiny, spec=spec, x=x, y=y)
    gy = mon.call("grad_y", kern.grad_y, jx, jy)
    mon.close(gy, wy, "grad_y", ertol=er, rtol=rt, scale=sy, atol=tiny, spec=spec, x=x, y=y)
    dv = mon.call("divergence_x_grad_y", kern.divergence_x_grad_y, jx, jy)
    mon.close(dv, wd, "divergence_x_grad_y", ertol=er, rtol=rt, scale=sd, atol=tiny, spec=spec, x=x, y=y)
    if np.any(np.abs(wd) > 1e-12):
        mon.sig(shape_of(spec), geom, x.shape[1], x64)
    if rep == 0:
        mon.sample(spec=spec, geometry=geom, x=x, y=y, divergence=dv, want=wd)
    if rep % 3 == 0:
        i, j = int(r.integers(len(x))), int(r.integers(len(y)))
        a = mon.call("grad_x_elementwise", kern.grad_x_elementwise, jx[i], jy[j])
        mon.close(a, wx[i, j], "grad_x_elementwise", ertol=er, rtol=rt, scale=sx, atol=tiny, spec=spec)
        b = mon.call("grad_y_elementwise", kern.grad_y_elementwise, jx[i], jy[j])
        mon.close(b, wy[i, j], "grad_y_elementwise", ertol=er, rtol=rt, scale=sy, atol=tiny, spec=spec)
        c = mon.call("divergence_elementwise", kern.divergence_x_grad_y_elementwise, jx[i], jy[j])
        mon.close(c, wd[i, j], "divergence_x_grad_y_elementwise", ertol=er, rtol=rt, scale=sd, atol=tiny, spec=spec)


def run_periodic(case, mon):
    """PeriodicKernel with an output scale other than one."""
    r = gen.rng(case["seed"])
    jnp = lib.jnp
    for rep in range(case["reps"]):
        x, y = draw(r, "per", case["dims"], "far")
        ls, os, p = gen.par(r), [2.0, 0.5, 3.0][rep % 3], 2 * gen.par(r)
        if rep % 2 == 0:
            spec = ["per", ls, os, p]
            good, bad = ref.Per(ls, os, p), PerScaled(ls, os, p)
        else:
            l2, o2 = gen.par(r), gen.par(r)
            spec = ["lper", ls, os, p, l2, o2]
            good = ref.Prod(ref.Per(ls, os, p), ref.SE(l2, o2))
            bad = ref.Prod(PerScaled(ls, os, p), ref.SE(l2, o2))
        kern = mon.call("construct", ref.build, spec)
        jx, jy = jnp.asarray(x), jnp.asarray(y)
        for name, fun, want in (("grad_x", kern.grad_x, good.gx), ("grad_y", kern.grad_y, good.gy)):
            mon.close(mon.call(name, fun, jx, jy), want(x, y), name, rtol=1e-9, ertol=1e-8, spec=spec)
        got = np.asarray(mon.call("divergence_x_grad_y", kern.divergence_x_grad_y, jx, jy))
        want, known = good.div(x, y), bad.div(x, y)
        tol = 1e-8 * (np.max(np.abs(want)) + np.max(np.abs(known)))
        if got.shape == known.shape and np.all(np.abs(got - known) <= tol) and not np.all(np.abs(got - want) <= tol):
            mon.known_finding(
                "periodic-divergence-output-scale",
                "PeriodicKernel.divergence_x_grad_y (and LocallyPeriodicKernel's) carries an extra "
                "factor output_scale in one term when output_scale != 1",
                spec=spec, got=got, want=want,
            )  # fmt: skip
        else:
            mon.close(got, want, "divergence_x_grad_y", rtol=1e-8, ertol=1e-8, spec=spec)
        mon.sig("periodic", spec[0], x.shape)
