"""Benchmark helpers build the solvers they name."""

import math
import warnings

import numpy as np

from cxmon import gen, greedy, lib, ref

RULE = (
    "a case calls initialise_solvers on a training set, key, oversampling factor and leaf size, asks every factory for "
    "solvers of several sizes (interleaved), inspects what they are and reduces the data with some of them; distinct: by "
    "name, sizes, leaf size and selection"
)
ASSUMPTIONS = ["training data with a non-singular covariance (the Stein thinning factory fits a density to it)"]

HERDERS = {
    "Iterative Probabilistic Herding (constant)": (True, False),
    "Iterative Herding": (False, None),
    "Iterative Probabilistic Herding (cubic)": (True, True),
}
NAMES = ["Random Sample", "RP Cholesky", "Kernel Herding", "Stein Thinning", "Kernel Thinning", "Compress++", *HERDERS]
WRAPPED = ["Kernel Herding", "Stein Thinning", "Kernel Thinning", *HERDERS]
FAST = ["Random Sample", "RP Cholesky", "Kernel Herding", *HERDERS]


def cases(tier, seed, rnd):
    r = gen.rng("C28", seed, rnd)
    reps = 1 if tier == "quick" else 4
    yield {"kind": "delta", "x64": False, "seed": gen.seed(r), "cost": 1}
    yield {"kind": "delta", "x64": True, "seed": gen.seed(r), "cost": 1}
    for i in range(6 * reps):
        yield {"kind": "iterative", "x64": bool(i % 2), "seed": gen.seed(r), "cost": 2}
    for leaf in (False, True):
        for rep in range(reps):
            for name in NAMES:
                yield {"kind": "solvers", "x64": bool(r.integers(2)), "seed": gen.seed(r), "name": name, "leaf": leaf,
                       "cost": 2 if name in FAST else 5}  # fmt: skip


def run(case, mon):
    r = gen.rng(case["seed"])
    {"delta": delta, "iterative": iterative, "solvers": solvers}[case["kind"]](case, mon, r)


def ref_delta(n):
    ln = math.log(n)
    if ln > 0:
        lln = math.log(ln)
        return 1 / (n * (lln if lln > 0 else ln))
    return 1 / n


def delta(case, mon, r):
    ns = list(range(1, 40)) + [int(v) for v in np.exp(r.uniform(3, 20, size=60))]
    for n in ns:
        got = mon.call("calculate_delta", lib.calculate_delta, n)
        mon.close(np.asarray(got), ref_delta(n), "calculate_delta", ertol=1e-9 if case["x64"] else 2e-5, n=n)
        mon.check(float(got) > 0, "calculate_delta: not positive", n=n)
        mon.sig("delta", n)


def iterative(case, mon, r):
    """IterativeKernelHerding.reduce is reduce_iterative with its settings."""
    n = int(r.choice([7, 12, 20]))
    size = int(r.integers(1, n))
    x = gen.points(r, n, 2, str(r.choice(["normal", "clusters", "dups"])))
    w = gen.weights(r, n, str(r.choice(["none", "rand"])))
    spec = gen.kernel(r, str(r.choice(["se", "rq", "lap"])), gen.scale_of(x))
    iters = int(r.integers(1, 6))
    prob = bool(r.integers(2))
    sch = lib.jnp.asarray(gen.f32(r.uniform(0.001, 0.5, size=iters))) if prob and r.integers(2) else None
    temp = lib.jnp.asarray(0.05) if sch is not None else 0.05
    key = lib.jr.key(gen.seed(r))
    unique = bool(r.integers(3) > 0)
    args = {"coreset_size": size, "kernel": ref.build(spec), "probabilistic": prob, "temperature": temp, "random_key": key,
            "unique": unique}  # fmt: skip
    data = greedy.to_data(x, w)
    info = {"x": x, "w": w, "spec": spec, "size": size, "iters": iters, "probabilistic": prob, "schedule": sch}
    it = lib.IterativeKernelHerding(num_iterations=iters, t_schedule=sch, **args)
    plain = lib.KernelHerding(**args)
    a, st_a = mon.call("IterativeKernelHerding.reduce", it.reduce, data)
    b, st_b = mon.call("reduce_iterative", plain.reduce_iterative, data, num_iterations=iters, t_schedule=sch)
    ia, ib = np.asarray(a.unweighted_indices), np.asarray(b.unweighted_indices)
    mon.check(np.array_equal(ia, ib), "IterativeKernelHerding differs from reduce_iterative", got=ia, want_=ib, **info)
    mon.close(st_a.gramian_row_mean, np.asarray(st_b.gramian_row_mean, dtype=float), "state differs", rtol=1e-6)
    again, _ = mon.call("IterativeKernelHerding.reduce", it.reduce, data, st_a)
    mon.check(np.array_equal(ia, np.asarray(again.unweighted_indices)), "cached state changed the result", **info)
    if not prob:
        cs, st = mon.call("reduce", plain.reduce, data)
        for _ in range(iters - 1):
            cs, st = mon.call("refine", plain.refine, cs, st)
        idx = np.asarray(cs.unweighted_indices)
        kern = ref.ref(spec)
        if not np.array_equal(idx, ia):  # only a tie can separate them
            sub = x[ia], x[idx]
            m = [ref.mmd(kern, x, s, w, None) for s in sub]
            mon.check(
                abs(m[0] - m[1]) <= (1e-7 if case["x64"] else 2e-3) * (1 + m[0]),
                "iterations are not repeated refinement", got=ia, want_=idx, mmd=m, **info,
            )  # fmt: skip
    mon.sig("iterative", n, size, iters, prob, sch is None, ia.tolist()[:4])
    mon.sample(indices=ia, **info)


def solvers(case, mon, r):
    name, with_leaf = case["name"], case["leaf"]
    n = int(r.choice([20, 33, 64, 70, 100]))
    d = int(r.integers(1, 4))
    x = gen.points(r, n, d, str(r.choice(["normal", "clusters", "shift"])))
    g = int(r.integers(1, int(math.log(n, 4) + 1e-9) + 1))
    sizes = [int(s) for s in r.integers(2, 9, size=3)]
    leaf = int(r.integers(max(sizes) + 1, max(sizes) + 30)) if with_leaf else None
    key = lib.jr.key(gen.seed(r))
    data = greedy.to_data(x, None)
    info = {"n": n, "d": d, "g": g, "leaf_size": leaf, "sizes": sizes, "name": name}
    extra = {} if leaf is None and r.integers(2) else {"leaf_size": leaf}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        table = mon.call("initialise_solvers", lib.initialise_solvers, data, key, g, **extra)
        for k in NAMES:
            mon.need(k in table and callable(table[k]), "missing solver", name=k)
        made = {(k, s): mon.call(k, table[k], s) for s in sizes for k in NAMES}
    length = float(np.sqrt(np.median(((x[:, None] - x[None]) ** 2).sum(-1)[np.triu_indices(n, 1)]) / 2))
    for (k, s), solver in made.items():
        wrap = isinstance(solver, lib.MapReduce)
        mon.need(
            wrap == (leaf is not None and k in WRAPPED), k + ": wrapped in MapReduce when it should not be, or not",
            got=type(solver).__name__, **{**info, "name": k},
        )  # fmt: skip
        inner = solver
        if wrap:
            mon.check(solver.leaf_size == leaf, k + ": wrong leaf_size", got=solver.leaf_size, **info)
            inner = solver.base_solver
        mon.check(inner.coreset_size == s, k + ": wrong coreset size", got=inner.coreset_size, size=s, **info)
        want = {
            "Random Sample": "RandomSample", "RP Cholesky": "RPCholesky", "Kernel Herding": "KernelHerding",
            "Stein Thinning": "SteinThinning", "Kernel Thinning": "KernelThinning", "Compress++": "CompressPlusPlus",
        }.get(k, "IterativeKernelHerding")  # fmt: skip
        mon.check(isinstance(inner, getattr(lib, want)), k + ": wrong kind of solver", got=type(inner).__name__)
        kern = getattr(inner, "kernel", None)
        if k != "Random Sample":
            base = getattr(kern, "base_kernel", kern)
            mon.close(
                np.asarray(base.length_scale), length, k + ": length scale is not the median heuristic", ertol=1e-5, **info
            )
        if k in HERDERS:
            prob, sch = HERDERS[k]
            mon.check(inner.probabilistic is prob, k + ": wrong probabilistic flag")
            mon.check(inner.num_iterations >= 2, k + ": not iterative", got=inner.num_iterations)
            if sch is not None:
                t = inner.t_schedule
                mon.check((t is not None) == sch, k + ": wrong temperature schedule", got=t)
                if sch and t is not None:
                    t = np.asarray(t, dtype=float)
                    mon.need(t.shape == (inner.num_iterations,), k + ": schedule length", got=t.shape)
                    root = t ** (-1 / 3)
                    mon.check(bool(np.all(np.diff(t) < 0)), k + ": schedule does not cool", got=t)
                    mon.check(bool(np.ptp(np.diff(root)) <= 1e-3 * root.max()), k + ": schedule not cubic", got=t)
        if k in ("Kernel Thinning", "Compress++"):
            mon.close(np.asarray(inner.delta), ref_delta(n), k + ": delta", ertol=1e-4)
        if k == "Compress++":
            mon.check(inner.g == g, k + ": wrong oversampling factor", got=inner.g, **info)
    order = [sizes[0]] if name not in FAST else sizes[:2]
    for s in order:
        solver = made[name, s]
        cs, _ = mon.call(name + " reduce", lib.eqx.filter_jit(solver.reduce), data)
        idx = greedy.indices(mon, cs, n, s, name)
        mon.check(len(set(idx.tolist())) == s, name + ": repeated rows", idx=idx, **info)
        mon.check(np.array_equal(np.asarray(cs.points.data), np.asarray(data.data)[idx]), name + ": points are not rows")
        if name == "Kernel Herding" and leaf is None:
            kern = ref.ref(["se", length, 1.0])
            tr = greedy.herding(kern, x, None, [None] * s, idx, True)
            mon.check(
                tr.bad is None and tr.regret <= 1e-4, name + ": not the greedy choice", idx=idx, regret=tr.regret, **info
            )  # fmt: skip
        if name in ("Random Sample", "RP Cholesky"):
            if name == "Random Sample":
                own = lib.RandomSample(s, key)
            else:
                own = lib.RPCholesky(
                    coreset_size=s, random_key=key, kernel=lib.SquaredExponentialKernel(length_scale=solver.kernel.length_scale)
                )
            cs2, _ = mon.call(name, lib.eqx.filter_jit(own.reduce), data)
            mon.check(
                np.array_equal(idx, np.asarray(cs2.unweighted_indices)), name + ": not the named solver with the given key",
                idx=idx, want_=np.asarray(cs2.unweighted_indices), **info,
            )  # fmt: skip
        mon.sig(name, n, s, leaf, idx.tolist()[:5])
        mon.sample(indices=idx, **info)
