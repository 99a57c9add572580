"""Kernel formulas, symmetry, positive semi-definiteness, algebra."""

import numpy as np

from cxmon import gen, lib, ref

RULE = (
    "a case draws kernels of one family (random parameters or expression trees) and point "
    "sets of hostile geometry and evaluates them through every input form; non-trivial: the "
    "Gramian has off-diagonal entries between 1e-12 and (1-1e-12) of its maximum; distinct: "
    "by kernel structure, geometry, dimension, dtype and input form"
)
ASSUMPTIONS = [
    "the NumPy float64 transcription of the documented formulas is right (self-checked "
    "against finite differences)",
    "float32 runs are compared with tolerances of 2e-4 relative, float64 runs with 1e-9",
]

FAMILIES = [
    "se", "pcimq", "rq", "mat", "exp", "lap", "lin", "poly", "per", "lper", "poi", "comp",
    "comp", "same",
]  # fmt: skip
PSD = {"se", "pcimq", "rq", "mat", "exp", "lap", "lin", "poly", "poi", "comp", "same"}
GEOMS = ["normal", "dups", "shift", "ints", "grid", "big", "small", "near", "far"]


def cases(tier, seed, rnd):
    r = gen.rng("C15", seed, rnd)
    reps = 10 if tier == "quick" else 30
    for fam in FAMILIES:
        for x64 in (True, False):
            yield {
                "kind": "formula", "family": fam, "x64": x64, "seed": gen.seed(r),
                "reps": reps if x64 else reps // 2, "cost": 4 if fam in ("mat", "comp", "same") else 2,
                "dims": [1 if fam == "poi" else int(r.choice([1, 2, 3, 7]))]
                + [[4, 3], [1, 5], [6, 1], [5, 4]][int(r.integers(4))],
            }  # fmt: skip
    for x64 in (True, False):
        yield {"kind": "algebra", "x64": x64, "seed": gen.seed(r), "reps": reps * 2, "cost": 3}


def draw_points(r, geom, dims):
    d, n, m = dims
    if geom == "near":
        x = gen.points(r, n, d)
        y = x[r.integers(0, n, size=m)] + 2.0**-12 * r.integers(-1, 2, size=(m, d))
    elif geom == "far":
        x, y = gen.points(r, n, d), gen.points(r, m, d) + 6.0
    else:
        z = gen.points(r, n + m, d, geom)
        x, y = z[:n], z[n:]
    if geom == "circle":
        x, y = np.mod(x, 6.25), np.mod(y, 6.25)
    return gen.f32(x), gen.f32(y)


def make(r, fam, ls):
    if fam == "same":
        base = gen.kernel(r, str(r.choice(["se", "rq", "smat", "lin"])), ls)
        if r.integers(2):
            return ["mul", base, base]
        other = list(base)
        other[1] = float(np.float32(base[1] * (1 + 2.0**-7)))
        return ["mul", base, other]
    return gen.kernel(r, fam, ls)


def conv(x, form):
    jnp = lib.jnp
    if form == "int":
        return jnp.asarray(np.asarray(x, dtype=np.int32))
    return jnp.asarray(x, dtype=float)


def tolerances(spec, x, y, x64):
    """Entrywise relative tolerance plus an absolute part from cancellation in dots."""
    mag = ref.ref(spec).k(np.abs(x), np.abs(y)) if not ref.ref(spec).ti else 0.0
    big = np.maximum(np.abs(mag), np.abs(ref.ref(spec).k(x, y)))
    # conditioning of exp(-t): relative error t*eps, t up to ~90 before underflow
    if x64:
        return 1e-9, 1e-9 * big + 1e-290
    return 3e-4, 3e-5 * big + 1e-36


def run(case, mon):
    if case["kind"] == "algebra":
        return run_algebra(case, mon)
    r = gen.rng(case["seed"])
    fam = case["family"]
    dims = case["dims"]
    for rep in range(case["reps"]):
        geom = "circle" if fam == "poi" else GEOMS[int(r.integers(len(GEOMS)))]
        x, y = draw_points(r, geom, dims)
        ls = gen.scale_of(np.concatenate([x, y]))
        spec = make(r, fam, ls)
        kern = mon.call("construct", ref.build, spec)
        want = ref.ref(spec).k(x, y)
        form = "int" if np.all(x == np.round(x)) and np.all(y == np.round(y)) else "float"
        # integer arrays are promoted to float32 by some operations, even with x64
        er, at = tolerances(spec, x, y, case["x64"] and form == "float")
        if fam in ("per", "lper") and (form == "int" or not case["x64"]):
            # the phase pi*r/p is only known to r*eps
            at = at + 1e-5 * (1 + np.max(np.abs(want))) * (1 + np.max(np.abs(x)) + np.max(np.abs(y)))
        got = mon.call("compute", kern.compute, conv(x, form), conv(y, form))
        mon.close(got, want, "compute equals the documented formula", atol=at, ertol=er,
                  spec=spec, x=x, y=y, geom=geom)  # fmt: skip
        rev = mon.call("compute", kern.compute, conv(y, form), conv(x, form))
        mon.close(rev, want.T, "compute is symmetric", atol=np.transpose(at) if np.ndim(at) else at,
                  ertol=er, spec=spec)  # fmt: skip
        off = np.abs(want) / max(np.max(np.abs(want)), 1e-300)
        if np.any((off > 1e-12) & (off < 1 - 1e-12)):
            mon.sig(shape_of(spec), geom, x.shape[1], form, case["x64"])
        if rep == 0:
            mon.sample(spec=spec, geometry=geom, x=x, y=y, got=got, want=want)
        if rep % 3:
            continue
        # single points as vectors and elementwise
        at00 = at[0, 0] if np.ndim(at) else at
        i, j = int(r.integers(len(x))), int(r.integers(len(y)))
        atij = at[i, j] if np.ndim(at) else at
        vec = mon.call("compute", kern.compute, conv(x[i], form), conv(y[j], form))
        mon.close(vec, want[i : i + 1, j : j + 1], "vectors are single points", atol=atij, ertol=er, spec=spec)
        ew = mon.call("compute_elementwise", kern.compute_elementwise, conv(x[i], form), conv(y[j], form))
        mon.close(ew, want[i, j], "compute_elementwise", atol=atij, ertol=er, spec=spec)
        mixed = mon.call("compute", kern.compute, conv(x, form), conv(y[j], form))
        mon.close(mixed, want[:, j : j + 1], "array against vector",
                  atol=at[:, j : j + 1] if np.ndim(at) else at, ertol=er, spec=spec)  # fmt: skip
        if x.shape[1] == 1:
            a, b = float(x[0, 0]), float(y[0, 0])
            if form == "int":
                a, b = int(a), int(b)
            sc = mon.call("compute", kern.compute, a, b)
            mon.close(sc, want[:1, :1], "scalars are 1-d points", atol=at00, ertol=er, spec=spec)
        if fam in PSD and case["x64"] and form == "float":
            z = np.concatenate([x, y])
            g = np.asarray(mon.call("compute", kern.compute, conv(z, form), conv(z, form)), dtype=np.float64)
            mon.check(np.allclose(g, g.T, rtol=1e-9, atol=1e-12 * np.max(np.abs(g))), "Gramian symmetric", spec=spec)
            low = float(np.linalg.eigvalsh((g + g.T) / 2)[0])
            mon.check(low >= -1e-8 * len(z) * np.max(np.abs(g)), "Gramian positive semi-definite",
                      spec=spec, min_eig=low)  # fmt: skip


def shape_of(spec):
    """Structure of an expression without its parameters."""
    if spec[0] in ("mat", "poly"):
        return [spec[0], spec[-1]]
    if spec[0] == "pow":
        return ["pow", shape_of(spec[1]), spec[2]]
    return [spec[0]] + [shape_of(s) for s in spec[1:] if isinstance(s, list)]


def run_algebra(case, mon):
    """Operators evaluate pointwise on what the operands themselves evaluate to."""
    r = gen.rng(case["seed"])
    jnp = lib.jnp
    tol = 1e-12 if case["x64"] else 2e-5
    fams = ["se", "pcimq", "rq", "mat", "exp", "lap", "lin", "poly"]
    for _ in range(case["reps"]):
        d = int(r.integers(1, 4))
        x = jnp.asarray(gen.points(r, 4, d), dtype=float)
        y = jnp.asarray(gen.points(r, 3, d), dtype=float)
        sa, sb = (gen.kernel(r, fams[int(r.integers(len(fams)))]) for _ in range(2))
        if r.integers(4) == 0:
            sb = sa
        ka, kb = ref.build(sa), ref.build(sb)
        va = np.asarray(ka.compute(x, y), dtype=np.float64)
        vb = np.asarray(kb.compute(x, y), dtype=np.float64)
        c = [0, 1, 2.5, 3, 0.0, 0.125, 7][int(r.integers(7))]
        p = int(r.integers(1, 6))
        table = [
            ("a+b", lambda: ka + kb, va + vb),
            ("a*b", lambda: ka * kb, va * vb),
            ("a**p", lambda: ka**p, va**p),
            ("a+c", lambda: ka + c, va + c),
            ("c+a", lambda: c + ka, va + c),
            ("a*c", lambda: ka * c, va * c),
            ("c*a", lambda: c * ka, va * c),
            ("sum([a,b])", lambda: sum([ka, kb]), va + vb),
            ("(a+b)*a", lambda: (ka + kb) * ka, (va + vb) * va),
            ("(a*b)**p+c", lambda: (ka * kb) ** p + c, (va * vb) ** p + c),
            ("Additive", lambda: lib.AdditiveKernel(ka, kb), va + vb),
            ("Product", lambda: lib.ProductKernel(ka, kb), va * vb),
            ("Power", lambda: lib.PowerKernel(ka, p), va**p),
        ]
        for name, fun, want in table:
            kern = mon.call("algebra " + name, fun)
            got = mon.call("compute", kern.compute, x, y)
            mon.close(got, want, "algebra is pointwise", ertol=tol * 4, rtol=tol, expr=name, a=sa, b=sb, c=c, p=p)
            mon.sig(name, shape_of(sa), shape_of(sb))
