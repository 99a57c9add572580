"""Infeasible or invalid configurations are rejected, feasible ones accepted."""

import warnings

import numpy as np

from cxmon import gen, greedy, lib, ref, zoo

RULE = (
    "a case walks one group of validity rules of the public API: for each rule it hands random invalid values (just outside the "
    "boundary, far outside, of the wrong type) to the real code and monitors the exception raised, and hands values at and "
    "just inside the boundary to the same code and monitors that a result comes back and is usable; "
    "distinct: by rule, invalid or valid side, and value"
)
ASSUMPTIONS = ["NaN, booleans and numpy integers as parameters are outside the documented ranges and are not judged"]
GROUPS = ["kernels", "algebra", "containers", "composite", "analysis", "scores", "compress", "kernels", "algebra", "containers",
          "analysis", "compress"]  # fmt: skip
SIZED = [n for n in zoo.NAMES if n not in ("caratheodory", "tree")]


def cases(tier, seed, rnd):
    r = gen.rng("C03", seed, rnd)
    for j in range(1 if tier == "quick" else 5):
        for i, kind in enumerate(SIZED + GROUPS):
            case = {"kind": "reduce" if i < len(SIZED) else kind, "x64": bool(r.integers(2)), "seed": gen.seed(r), "i": i}
            yield case | {"name": kind, "cost": 2 if kind in zoo.SLOW or kind in ("compress", "composite") else 1}


def run(case, mon):
    r = gen.rng(case["seed"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()[case["kind"]](case, mon, r)


def bad(mon, types, rule, fn, value, *a, **k):
    mon.raises(types, f"{rule}: invalid value rejected", fn, *a, **k) or mon.violations[-1]["detail"].update(value=str(value))
    mon.sig(rule, "invalid", str(value))


def good(mon, rule, fn, value, *a, **k):
    out = mon.call(f"{rule} = {value}", fn, *a, **k)
    mon.check(True, f"{rule}: valid value accepted")
    mon.sig(rule, "valid", str(value))
    return out


def below(r, m=0.0):
    """Floats not larger than 0 (or strictly below it)."""
    vals = [-1e-30, -1e-6, -1.0, -1e30, -float(10 ** r.uniform(-12, 12)), -float("inf")]
    return vals if m is None else [0.0, -0.0, 0, *vals, -3]


# kernel class, rule on each parameter
POSITIVE = {
    "LinearKernel": ["output_scale"],
    "PolynomialKernel": ["output_scale"],
    "SquaredExponentialKernel": ["length_scale", "output_scale"],
    "ExponentialKernel": ["length_scale", "output_scale"],
    "LaplacianKernel": ["length_scale", "output_scale"],
    "PCIMQKernel": ["length_scale", "output_scale"],
    "RationalQuadraticKernel": ["length_scale", "output_scale"],
    "MaternKernel": ["length_scale", "output_scale"],
    "PeriodicKernel": ["length_scale", "output_scale"],
    "LocallyPeriodicKernel": [
        "periodic_length_scale", "periodic_output_scale", "squared_exponential_length_scale", "squared_exponential_output_scale",
    ],
    "PoissonKernel": ["output_scale"],
}  # fmt: skip
NON_NEGATIVE = [("LinearKernel", "constant"), ("PolynomialKernel", "constant"), ("RationalQuadraticKernel", "relative_weighting")]


def usable(mon, rule, kern, value):
    """The accepted kernel computes a finite Gramian."""
    x = lib.jnp.asarray([[0.2], [0.7], [1.1]])
    gram = np.asarray(mon.call(f"{rule} = {value}: compute", kern.compute, x, x))
    mon.check(gram.shape == (3, 3) and np.all(np.isfinite(gram)), f"{rule}: accepted kernel is usable", value=value, gram=gram)


def kernels(case, mon, r):
    for name, params in POSITIVE.items():
        cls = getattr(lib, name)
        for par in params:
            rule = f"{name}({par} > 0)"
            for v in r.permutation(np.array(below(r), dtype=object))[:5]:
                bad(mon, ValueError, rule, cls, v, **{par: v})
            for v in (1e-30, 1e-6, 1, float(10 ** r.uniform(-8, 8)), 1e30):
                good(mon, rule, cls, v, **{par: v})
            v = float(10 ** r.uniform(-1, 1))
            usable(mon, rule, good(mon, rule, cls, v, **{par: v}), v)
            # One bad parameter among good ones
            others = {p: float(10 ** r.uniform(-2, 2)) for p in params if p != par}
            v = below(r)[int(r.integers(9))]
            bad(mon, ValueError, rule, cls, v, **{par: v}, **others)
    for name, par in NON_NEGATIVE:
        cls = getattr(lib, name)
        rule = f"{name}({par} >= 0)"
        for v in below(r, None):
            bad(mon, ValueError, rule, cls, v, **{par: v})
        for v in (0, 0.0, 1e-30, 1, float(10 ** r.uniform(-3, 1))):
            usable(mon, rule, good(mon, rule, cls, v, **{par: v}), v)
    rule = "PolynomialKernel(degree >= 2)"
    for v in (1, 0, -1, -int(r.integers(2, 100)), 2.0, 2.5, 1.999, "2", None):
        bad(mon, ValueError, rule, lib.PolynomialKernel, v, degree=v)
    for v in (2, 3, int(r.integers(4, 9))):
        usable(mon, rule, good(mon, rule, lib.PolynomialKernel, v, degree=v), v)
    rule = "MaternKernel(degree >= 0)"
    for v in (-1, -int(r.integers(2, 100)), 0.5, 1.0, -0.1, 1.5, "1", None):
        bad(mon, ValueError, rule, lib.MaternKernel, v, degree=v)
    for v in (0, 1, int(r.integers(2, 7))):
        usable(mon, rule, good(mon, rule, lib.MaternKernel, v, degree=v), v)
    rule = "PoissonKernel(0 < index < 1)"
    for v in (0, 0.0, 1, 1.0, -1e-9, 1 + 1e-9, 2.0, -5.0, float("inf"), -float("inf"), 1 + float(r.uniform(0, 3)), -float(r.uniform(0, 3))):
        bad(mon, ValueError, rule, lib.PoissonKernel, v, index=v)
    for v in (1e-9, 1 - 1e-9, 0.5):
        good(mon, rule, lib.PoissonKernel, v, index=v)
    v = float(r.uniform(0.01, 0.95))
    usable(mon, rule, good(mon, rule, lib.PoissonKernel, v, index=v), v)


def some_kernel(r):
    return ref.build(gen.kernel(r, str(r.choice(["se", "pcimq", "rq", "mat", "lin", "lap"])), 1.0))


def algebra(case, mon, r):
    k = some_kernel(r)
    if r.integers(3) == 0:
        k = k + some_kernel(r)
    for v in (0, -1, -int(r.integers(2, 50)), 0.0, 0.5, 1.0, 2.0, -1.5, float(r.uniform(0, 5)), "2", None):
        bad(mon, ValueError, "PowerKernel(power integer >= 1)", lib.PowerKernel, v, k, v)
        bad(mon, ValueError, "kernel ** power integer >= 1", lambda v=v: k**v, v)
    for v in (1, 2, int(r.integers(3, 6))):
        usable(mon, "PowerKernel(power)", good(mon, "PowerKernel(power)", lib.PowerKernel, v, k, v), v)
        usable(mon, "kernel ** power", good(mon, "kernel ** power", lambda v=v: k**v, v), v)
    for v in (-1, -1.0, -1e-9, -float(10 ** r.uniform(-12, 12)), -int(r.integers(1, 99))):
        bad(mon, ValueError, "kernel + constant >= 0", lambda v=v: k + v, v)
        bad(mon, ValueError, "constant + kernel >= 0", lambda v=v: v + k, v)
        bad(mon, ValueError, "kernel * constant >= 0", lambda v=v: k * v, v)
        bad(mon, ValueError, "constant * kernel >= 0", lambda v=v: v * k, v)
    for v in (0, 0.0, 1, 1e-6, float(r.uniform(0, 9))):
        for rule, fn in (
            ("kernel + constant", lambda v=v: k + v), ("constant + kernel", lambda v=v: v + k),
            ("kernel * constant", lambda v=v: k * v), ("constant * kernel", lambda v=v: v * k),
        ):  # fmt: skip
            usable(mon, rule, good(mon, rule, fn, v), v)
    for v in ("1", None, [1.0], {"a": 1}, object, np.sin):
        bad(mon, ValueError, "kernel + non-kernel", lambda v=v: k + v, v)
        bad(mon, ValueError, "kernel * non-kernel", lambda v=v: k * v, v)
        for name in ("AdditiveKernel", "ProductKernel"):
            cls = getattr(lib, name)
            bad(mon, TypeError, f"{name}(first_kernel)", cls, v, v, k)
            bad(mon, TypeError, f"{name}(second_kernel)", cls, v, k, v)
            bad(mon, TypeError, f"{name}(both)", cls, v, v, v)
        bad(mon, TypeError, "PowerKernel(base_kernel)", lib.PowerKernel, v, v, 2)
        bad(mon, TypeError, "SteinKernel(base_kernel)", lib.SteinKernel, v, v, lambda x: x)
    for v in (1, 2.5):
        bad(mon, TypeError, "AdditiveKernel(first_kernel)", lib.AdditiveKernel, v, v, k)
        bad(mon, TypeError, "ProductKernel(second_kernel)", lib.ProductKernel, v, k, v)
        bad(mon, TypeError, "PowerKernel(base_kernel)", lib.PowerKernel, v, v, 2)
        bad(mon, TypeError, "SteinKernel(base_kernel)", lib.SteinKernel, v, v, lambda x: x)
    # Rejections reach nested kernels too
    bad(mon, ValueError, "kernel ** power integer >= 1", lambda: (k + k * 2) ** -1, "nested -1")
    bad(mon, ValueError, "kernel + constant >= 0", lambda: (k * k) + (-0.5), "nested -0.5")


def reduce(case, mon, r):
    """coreset_size > 0 at construction, <= n at reduction."""
    name = case["name"]
    n = int(r.integers(4, 10))
    d = int(r.integers(1, 3))
    x = gen.points(r, n, d, "normal")
    w = gen.weights(r, n, str(r.choice(["none", "rand", "int"])))
    y = r.normal(size=(n, 1)) if name in zoo.SUPERVISED else None
    data = greedy.to_data(x, w, y)
    ls = gen.scale_of(x)
    rule = f"{name}(coreset_size)"
    for v in (0, -1, -int(r.integers(2, 1000))):
        if name.startswith("mr-") or name == "compress":
            bad(mon, ValueError, rule, small(r, name, ls), v, v)
        else:
            bad(mon, ValueError, rule, zoo.make, v, r, name, n, v, ls)
    top = zoo.max_size(name, n, n)
    if name != "compress":
        for v in (n + 1, 2 * n, n + int(r.integers(2, 50))):
            solver, _ = zoo.make(r, name, 2 if name.startswith("mr-") else n, v, ls)
            bad(mon, ValueError, f"{rule} <= n", solver.reduce, v, data)
    for v in (1, top):
        if name.startswith("mr-") and v == top:
            continue
        solver, info = zoo.make(r, name, n, v, ls)
        cs, _ = good(mon, rule, solver.reduce, v, data)
        idx = np.asarray(cs.unweighted_indices)
        mon.check(
            len(idx) == v and np.all((idx >= 0) & (idx < n)), f"{rule}: accepted size is usable", value=v, n=n, idx=idx, **info
        )


def small(r, name, ls):
    kern = ref.build(gen.kernel(r, "se", ls))
    if name == "compress":
        return lambda v: lib.CompressPlusPlus(
            coreset_size=v, g=1, kernel=kern, random_key=lib.jr.key(0), delta=0.1, sqrt_kernel=kern
        )
    return lambda v: lib.MapReduce(lib.KernelHerding(coreset_size=v, kernel=kern), leaf_size=5)


def compress(case, mon, r):
    kern = ref.build(gen.kernel(r, "se", 1.0))

    def make(size, g):
        return lib.CompressPlusPlus(
            coreset_size=size, g=g, kernel=kern, random_key=lib.jr.key(gen.seed(r)), delta=0.1, sqrt_kernel=kern
        )

    for n in r.permutation([4, 5, 15, 16, 17, 20, 63, 64])[:2]:
        n = int(n)
        data = greedy.to_data(gen.points(r, n, 2, "normal"), None)
        p = zoo.power4(n)
        for g in (-1, p + 1, p + int(r.integers(2, 9)), -int(r.integers(2, 9))):
            bad(mon, ValueError, "CompressPlusPlus(0 <= g <= log4 n)", make(1, g).reduce, (n, g), data)
        for g in range(p + 1):
            cap = 2**g * 2**p
            for size in (cap + 1, cap + int(r.integers(2, 20))):
                bad(mon, ValueError, "CompressPlusPlus(coreset_size <= 2^g sqrt(4^floor(log4 n)))", make(size, g).reduce, (n, g, size), data)  # fmt: skip
        g = int(r.integers(0, p + 1))
        for size in (2**g * 2**p,):
            cs, _ = good(mon, "CompressPlusPlus boundary", make(size, g).reduce, (n, g, size), data)
            idx = np.asarray(cs.unweighted_indices)
            mon.check(len(idx) == size and np.all((idx >= 0) & (idx < n)), "CompressPlusPlus: accepted size is usable", n=n, g=g, size=size)


def containers(case, mon, r):
    jnp = lib.jnp
    n, d = int(r.integers(2, 9)), int(r.integers(1, 4))
    x = gen.f32(r.normal(size=(n, d)))
    data = lib.Data(jnp.asarray(x))
    m = int(r.integers(1, n + 1))
    idx = jnp.asarray(r.integers(0, n, size=m), dtype=jnp.int32)
    nodes = lib.Data(jnp.asarray(x[:m]))
    for v in (np.asarray(idx), idx, list(np.asarray(idx)), tuple(np.asarray(idx)), None):
        bad(mon, TypeError, "Coresubset(indices: Data)", lib.Coresubset, type(v), v, data)
    for v in (x, jnp.asarray(x), (x, x), x.tolist(), None):
        bad(mon, TypeError, "Coresubset(pre_coreset_data: Data)", lib.Coresubset, type(v), lib.Data(idx), v)
        bad(mon, TypeError, "PseudoCoreset(pre_coreset_data: Data)", lib.PseudoCoreset, type(v), nodes, v)
        bad(mon, TypeError, "PseudoCoreset(nodes: Data)", lib.PseudoCoreset, type(v), v, data)
    for extra in (1, int(r.integers(2, 20))):
        big = n + extra
        long_idx = jnp.asarray(r.integers(0, n, size=big), dtype=jnp.int32)
        long_x = jnp.asarray(gen.f32(r.normal(size=(big, d))))
        y = jnp.asarray(r.normal(size=(n, 1)))
        for target, label in ((data, "Data"), (lib.SupervisedData(jnp.asarray(x), y), "SupervisedData")):
            bad(mon, ValueError, f"Coresubset({label}) no larger than its dataset", lib.Coresubset, big - n, lib.Data(long_idx), target)
            bad(mon, ValueError, f"PseudoCoreset({label}) no larger than its dataset", lib.PseudoCoreset, big - n, lib.Data(long_x), target)  # fmt: skip
            bad(mon, ValueError, f"Coresubset.build({label}) no larger than its dataset", lib.Coresubset.build, big - n, long_idx, target)  # fmt: skip
            bad(mon, ValueError, f"PseudoCoreset.build({label}) no larger than its dataset", lib.PseudoCoreset.build, big - n, long_x, target)  # fmt: skip
    full = jnp.asarray(r.integers(0, n, size=n), dtype=jnp.int32)
    for rule, fn, args in (
        ("Coresubset of full size", lib.Coresubset, (lib.Data(full), data)),
        ("Coresubset.build of full size", lib.Coresubset.build, (full, jnp.asarray(x))),
        ("PseudoCoreset of full size", lib.PseudoCoreset, (data, data)),
        ("PseudoCoreset.build of full size", lib.PseudoCoreset.build, (jnp.asarray(x), jnp.asarray(x))),
    ):
        cs = good(mon, rule, fn, n, *args)
        mon.check(len(cs) == n and len(cs.points) == n, rule + " is usable", n=n)
    for e in (1, -1, int(r.integers(2, 9))):
        if n + e < 1:
            continue
        y = jnp.asarray(r.normal(size=(n + e, int(r.integers(1, 3)))))
        bad(mon, ValueError, "SupervisedData leading dimensions equal", lib.SupervisedData, e, jnp.asarray(x), y)
        wts = jnp.ones(n)
        bad(mon, ValueError, "SupervisedData leading dimensions equal (weighted)", lib.SupervisedData, e, jnp.asarray(x), y, wts)
    y = jnp.asarray(r.normal(size=(n, 2)))
    sup = good(mon, "SupervisedData matching", lib.SupervisedData, n, jnp.asarray(x), y)
    mon.check(len(sup) == n, "SupervisedData matching is usable")
    # tree_zero_pad and batches
    for v in (-1, -int(r.integers(2, 99))):
        bad(mon, ValueError, "tree_zero_pad(pad_width >= 0)", lib.tree_zero_pad_leading_axis, v, data, v)
    for v in (0, 1, int(r.integers(2, 9))):
        out = good(mon, "tree_zero_pad(pad_width)", lib.tree_zero_pad_leading_axis, v, data, v)
        mon.check(len(out) == n + v, "tree_zero_pad: accepted width is usable", value=v)
    key = lib.jr.key(gen.seed(r))
    top = int(r.integers(1, 9))
    for v in (top + 1, top + int(r.integers(2, 9)), -1, -int(r.integers(2, 9))):
        bad(mon, ValueError, "sample_batch_indices(0 <= batch_size <= max_index)", lib.sample_batch_indices, v, key, top, v, 3)
    for v in (0, 1, top):
        out = good(mon, "sample_batch_indices(batch_size)", lib.sample_batch_indices, v, key, top, v, 3)
        mon.check(out.shape == (3, v), "sample_batch_indices: accepted size is usable", value=v)
    # means of nothing
    kern = some_kernel(r)
    for label, a, b in (("x", jnp.zeros((0, d)), jnp.asarray(x)), ("y", jnp.asarray(x), jnp.zeros((0, d)))):
        for bs in (None, int(r.integers(1, 5))):
            ax = {"x": 0, "y": 1}[label]
            if label == "y" and bs is not None:
                continue
            bad(mon, ValueError, f"compute_mean of empty {label}", kern.compute_mean, (label, bs), lib.Data(a), lib.Data(b), axis=ax, block_size=bs)  # fmt: skip


def composite(case, mon, r):
    size = int(r.integers(1, 6))
    kern = some_kernel(r)
    bases = {
        "herding": lambda: lib.KernelHerding(coreset_size=size, kernel=kern),
        "random": lambda: lib.RandomSample(coreset_size=size, random_key=lib.jr.key(0), weighted=True),
        "stein": lambda: lib.SteinThinning(coreset_size=size, kernel=kern, regularise=False),
        "rpc": lambda: lib.RPCholesky(coreset_size=size, random_key=lib.jr.key(0), kernel=kern),
    }
    for label, base in bases.items():
        rule = f"MapReduce({label}, leaf_size > coreset_size)"
        for v in (size, size - 1, 0, -1, -int(r.integers(2, 99)), int(r.integers(-20, size + 1))):
            bad(mon, ValueError, rule, lib.MapReduce, (size, v), base(), leaf_size=v)
        for v in (size + 1, size + int(r.integers(2, 99))):
            good(mon, rule, lib.MapReduce, (size, v), base(), leaf_size=v)
    for v in (lib.CaratheodoryRecombination(), lib.TreeRecombination(), None, "herding", kern):
        bad(mon, ValueError, "MapReduce(base_solver: ExplicitSizeSolver)", lib.MapReduce, str(v)[:30], v, leaf_size=10)
    n = int(r.integers(size + 1, size + 12))
    data = greedy.to_data(gen.points(r, n, 2, "normal"), None)
    cs, _ = good(mon, "MapReduce(leaf_size = coreset_size + 1).reduce", lib.MapReduce(bases["herding"](), leaf_size=size + 1).reduce, (n, size), data)  # fmt: skip
    mon.check(len(cs) == size, "MapReduce at the boundary is usable", n=n, size=size)
    # Recombination modes
    for v in ("Explicit", "implicit explicit", "", "explicit-implicit", None, 0, "implict"):
        for cls in (lib.CaratheodoryRecombination, lib.TreeRecombination):
            bad(mon, ValueError, f"{cls.__name__}(mode)", cls, v, mode=v)
    for v in ("implicit-explicit", "implicit", "explicit"):
        for cls in (lib.CaratheodoryRecombination, lib.TreeRecombination):
            solver = good(mon, f"{cls.__name__}(mode)", cls, v, mode=v)
            x = gen.points(r, 6, 1, "normal")
            if v != "explicit" and r.integers(2):
                continue
            cs, _ = good(mon, f"{cls.__name__}(mode).reduce", solver.reduce, v, lib.Data(lib.jnp.asarray(x)))
            mon.check(1 <= len(cs) <= 6, f"{cls.__name__}(mode): accepted mode is usable")
    x = lib.Data(lib.jnp.asarray(gen.points(r, 8, 1, "normal")))
    for cls in (lib.CaratheodoryRecombination, lib.TreeRecombination):
        bad(mon, ValueError, f"{cls.__name__}(explicit) compiled", lib.eqx.filter_jit(cls(mode="explicit").reduce), "jit", x)


def analysis(case, mon, r):
    """Metrics, weights, approximations, least squares."""
    jnp, jr = lib.jnp, lib.jr
    n, d = int(r.integers(3, 9)), int(r.integers(1, 3))
    x = gen.f32(r.normal(size=(n, d)))
    y = gen.f32(r.normal(size=(n, 1)))
    kern = some_kernel(r)
    se = lib.SquaredExponentialKernel(gen.scale_of(x))
    data = lib.Data(jnp.asarray(x))
    sup = lib.SupervisedData(jnp.asarray(x), jnp.asarray(y))
    for v in below(r, None):
        bad(mon, ValueError, "AMCMD(regularisation_parameter >= 0)", lib.AMCMD, v, se, se, v)
    for v in (0, 0.0, 1e-6, 1.0, float(10 ** r.uniform(-6, 3))):
        m = good(mon, "AMCMD(regularisation_parameter)", lib.AMCMD, v, se, se, v)
        if v:
            val = mon.call("AMCMD.compute", m.compute, sup, sup)
            mon.check(np.isfinite(float(val)), "AMCMD: accepted parameter is usable", value=v)
    m = int(r.integers(1, n))
    for cls in (lib.SBQWeightsOptimiser, lib.MMDWeightsOptimiser):
        for pair, args in (("both", (sup, sup[:m])), ("dataset", (sup, data[:m])), ("coreset", (data, sup[:m]))):
            bad(mon, ValueError, f"{cls.__name__} on supervised data", cls(se).solve, pair, *args)
        w = good(mon, f"{cls.__name__} on data", cls(se).solve, m, data, data[:m], epsilon=1e-4)
        mon.check(np.asarray(w).shape == (m,) and np.all(np.isfinite(np.asarray(w))), f"{cls.__name__} on data is usable")
    # Kernel mean approximations
    for name in ("MonteCarloApproximateKernel", "ANNchorApproximateKernel", "NystromApproximateKernel"):
        cls = getattr(lib, name)
        for par in ("num_kernel_points", "num_train_points"):
            other = {"num_kernel_points": "num_train_points", "num_train_points": "num_kernel_points"}[par]
            for v in (0, -1, -int(r.integers(2, 999))):
                bad(mon, ValueError, f"{name}({par} > 0)", cls, v, se, jr.key(0), **{par: v, other: 1})
            if name == "ANNchorApproximateKernel" and par == "num_kernel_points":
                continue
            for v in (n + 1, n + int(r.integers(2, 99))):
                k = cls(se, jr.key(gen.seed(r)), **{par: v, other: 1})
                bad(mon, ValueError, f"{name}({par} <= n)", k.gramian_row_mean, (n, v), jnp.asarray(x))
        k = cls(se, jr.key(gen.seed(r)), num_kernel_points=n, num_train_points=n)
        out = np.asarray(good(mon, f"{name}(points = n)", k.gramian_row_mean, n, jnp.asarray(x)))
        mon.check(out.shape == (n,) and np.all(np.isfinite(out)), f"{name}: accepted sizes are usable")
        k = cls(se, jr.key(gen.seed(r)), num_kernel_points=1, num_train_points=1)
        out = np.asarray(good(mon, f"{name}(points = 1)", k.gramian_row_mean, n, jnp.asarray(x)))
        mon.check(out.shape == (n,), f"{name}: accepted sizes are usable")
    # Randomised eigendecomposition
    cls = lib.RandomisedEigendecompositionSolver
    for v in (0, -1, -int(r.integers(2, 99)), 1.5, 2.0, 0.5, -0.5):
        bad(mon, ValueError, "Randomised(oversampling_parameter > 0)", cls, v, jr.key(0), oversampling_parameter=v)
    for v in (-1, -int(r.integers(2, 99)), 0.5, 1.0, -0.5):
        bad(mon, ValueError, "Randomised(power_iterations >= 0)", cls, v, jr.key(0), power_iterations=v)
    for v in (-1e-9, -0.5, -2, -1.0001, -0.9999, -float(10 ** r.uniform(1, 9)), -float("inf")):
        bad(mon, ValueError, "Randomised(rcond >= 0 or -1)", cls, v, jr.key(0), rcond=v)
        bad(mon, ValueError, "Randomised(rcond >= 0 or -1)", cls, v, jr.key(0), rcond=v, power_iterations=0)
    a = r.normal(size=(4, 4))
    a = jnp.asarray(a @ a.T + 4 * np.eye(4))
    for kw in (
        {"oversampling_parameter": 1}, {"oversampling_parameter": 4}, {"power_iterations": 0}, {"power_iterations": 1},
        {"rcond": -1}, {"rcond": 0}, {"rcond": 1e-9}, {"rcond": None}, {"rcond": 0.5},
    ):  # fmt: skip
        solver = good(mon, "Randomised(valid)", cls, kw, jr.key(0), **kw)
        out = mon.call(f"Randomised{kw}.solve", solver.solve, a, 1e-6, a, jnp.eye(4))
        mon.check(np.all(np.isfinite(np.asarray(out))), "Randomised: accepted parameters are usable", **{"kw": kw})
    for shape in ((4,), (1,), (2, 2, 2), (1, 4, 4), (3, 4), (4, 3), (1, 2)):
        bad(mon, ValueError, "randomised_eigendecomposition(square matrix)", cls(jr.key(0)).randomised_eigendecomposition, shape, jnp.ones(shape))  # fmt: skip


def scores(case, mon, r):
    """Sliced score matching."""
    optax, jr = lib.optax, lib.jr
    cls = lib.SlicedScoreMatching

    def make(**kw):
        return cls(jr.key(0), lib.jr.rademacher, **kw)

    for par in ("num_epochs", "batch_size"):
        for v in (-1, -int(r.integers(2, 99)), 1.5, 2.0, -0.5, "3", None):
            bad(mon, ValueError, f"SlicedScoreMatching({par} >= 0)", make, v, **{par: v})
        for v in (0, 1, int(r.integers(2, 99))):
            good(mon, f"SlicedScoreMatching({par})", make, v, **{par: v})
    for par in ("num_random_vectors", "num_noise_models"):
        for v in (0, -1, -int(r.integers(2, 99)), 1.5, 1.0, 0.5, "3", None):
            bad(mon, ValueError, f"SlicedScoreMatching({par} >= 1)", make, v, **{par: v})
        for v in (1, int(r.integers(2, 9))):
            good(mon, f"SlicedScoreMatching({par})", make, v, **{par: v})
    for v in (1e-3, 0.0, 1):
        bad(mon, DeprecationWarning, "SlicedScoreMatching(learning_rate)", make, v, learning_rate=v)
    for v in (optax.adamw, optax.sgd, lambda lr: optax.sgd(lr), "adam", 3):
        bad(mon, DeprecationWarning, "SlicedScoreMatching(optimiser)", make, str(v)[:30], optimiser=v)
    for v in (optax.sgd(1e-3), optax.adamw(1e-3), None):
        good(mon, "SlicedScoreMatching(optimiser)", make, "transformation" if v else None, optimiser=v)
    x = lib.jnp.asarray(gen.f32(r.normal(size=(6, 2))))
    sm = make(num_epochs=1, batch_size=3, num_random_vectors=1, num_noise_models=1, hidden_dims=[4], noise_conditioning=bool(r.integers(2)))
    fn = good(mon, "SlicedScoreMatching minimal", sm.match, 1, x)
    out = np.asarray(mon.call("score", fn, x))
    mon.check(out.shape == (6, 2) and np.all(np.isfinite(out)), "SlicedScoreMatching: minimal configuration is usable")
