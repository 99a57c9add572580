"""Solvers are deterministic, pure, and transparent to JIT and cached state."""

import os
import random
import subprocess
import sys

import numpy as np

from cxmon import gen, greedy, lib, ref, zoo

RULE = (
    "a case records the bits of every array of solver, dataset and initial coresubset, the global random states and the JAX "
    "configuration, runs the component repeatedly (eagerly, compiled, with another component in between, with the returned "
    "state passed back) and compares all records and results; one case repeats the runs in fresh processes with different "
    "hash seeds; distinct: by component, configuration, geometry and result"
)
ASSUMPTIONS = [
    "eager and compiled selections are compared on generic data in 64-bit floats, where no tie lies within rounding",
    "kernel thinning that halves once chooses between two exactly equally good halves, so its compiled selection may differ",
    "recombination returns any of many optimal vertices, so its compiled result is compared through its centre of mass",
]
METRICS = ["mmd", "ksd", "jmmd", "amcmd"]
OTHERS = ["sbq", "mmdw", "kdm", "nystrom", "montecarlo", "annchor", "lstsq", "rand-eig", "row-mean"]


def cases(tier, seed, rnd):
    r = gen.rng("C25", seed, rnd)
    reps = 1 if tier == "quick" else 4
    yield {"kind": "process", "x64": True, "seed": gen.seed(r), "cost": 30, "timeout": 300}
    for rep in range(reps):
        for name in zoo.NAMES:
            cost = 6 if name in zoo.SLOW else 2
            yield {"kind": "solver", "name": name, "x64": True, "seed": gen.seed(r), "cost": cost}
        for name in ("herding", "herding-prob", "herding-repeat", "gkp", "gkp-batch", "gkp-repeat", "stein"):
            yield {"kind": "state", "name": name, "x64": True, "seed": gen.seed(r), "cost": 3}
        for name in METRICS + OTHERS:
            yield {"kind": "other", "name": name, "x64": True, "seed": gen.seed(r), "cost": 2}
        for name in ("random", "herding", "rpc", "gkp"):
            yield {"kind": "solver", "name": name, "x64": False, "seed": gen.seed(r), "cost": 3}


def run(case, mon):
    r = gen.rng(case["seed"])
    {"solver": solver_case, "state": state_case, "other": other_case, "process": process_case}[case["kind"]](case, mon, r)


def bits(obj):
    """The exact content of every leaf of a pytree."""
    out = []
    for leaf in lib.jax.tree_util.tree_leaves(obj):
        if isinstance(leaf, lib.jax.Array) and lib.jax.numpy.issubdtype(leaf.dtype, lib.jax.dtypes.prng_key):
            leaf = lib.jr.key_data(leaf)
        if isinstance(leaf, (lib.jax.Array, np.ndarray, float, int, bool)):
            a = np.asarray(leaf)
            out.append((str(a.dtype), a.shape, a.tobytes()))
        else:
            out.append(("other", id(leaf)))
    return out


def world():
    """Global state that a pure function must not touch."""
    cfg = lib.jax.config
    return (
        np.random.get_state()[1].tobytes(), np.random.get_state()[2], random.getstate(), cfg.jax_enable_x64,
        cfg.jax_debug_nans, cfg.jax_disable_jit, cfg.jax_default_matmul_precision, dict(os.environ), os.getcwd(),
        tuple(sorted(np.geterr().items())),
    )  # fmt: skip


class Watch:
    """Watches that arguments and global state keep their bits across a block of calls."""

    def __init__(self, mon, label, **objs):
        self.mon, self.label, self.objs = mon, label, objs
        self.before = {k: bits(v) for k, v in objs.items()}
        self.world = world()

    def done(self, **info):
        for k, v in self.objs.items():
            self.mon.check(bits(v) == self.before[k], f"{self.label}: {k} was modified", **info)
        self.mon.check(world() == self.world, f"{self.label}: global state was modified", **info)


def dataset(r, name, n, x64):
    geom = str(r.choice(["normal", "clusters", "shift"]))
    x = gen.points(r, n, int(r.integers(1, 4)), geom)
    w = None if name.startswith("mr-") or name in ("compress", "kt") else gen.weights(r, n, str(r.choice(["none", "rand"])))
    y = r.normal(size=(n, 1)) if name in zoo.SUPERVISED else None
    return x, greedy.to_data(x, w, y)


def pool(name, n, info):
    """The points thinned last; the two halves of a set are equally good, so halving once is a tie that rounding decides."""
    if name == "compress":
        return 2 ** info["g"] * 2 ** zoo.power4(n)
    return n if name == "kt" else 10**6


def solver_case(case, mon, r):
    name = case["name"]
    n = int(r.choice([17, 24, 33])) if name != "compress" else int(r.choice([17, 40]))
    x, data = dataset(r, name, n, case["x64"])
    size = int(r.integers(5, 9)) if name.startswith("mr-") else int(r.integers(2, 5 if name in ("kt", "compress") else 6))
    solver, info = zoo.make(r, name, n, size, gen.scale_of(x), fam=str(r.choice(["se", "rq", "lap"])))
    if name in zoo.SUPERVISED:  # well conditioned losses, so that rounding cannot decide
        solver = lib.eqx.tree_at(lambda s: s.regularisation_parameter, solver, 0.1)
    info["x"] = x
    _, noise = dataset(r, "random", 9, True)
    watch = Watch(mon, name, dataset=data, solver=solver)
    a = mon.call(name, solver.reduce, data)
    watch.done(**info)
    mon.call("interleaved", lib.RandomSample(3, lib.jr.key(gen.seed(r))).reduce, noise)
    mon.call("interleaved", lib.KernelHerding(3, ref.build(["se", 1.0, 1.0])).reduce, noise)
    if name not in zoo.SLOW:
        b = mon.call(name, solver.reduce, data)
        mon.check(bits(a) == bits(b), name + ": a second run differs", first=a[0].unweighted_indices,
                  second=b[0].unweighted_indices, **info)  # fmt: skip
    copy = lib.jax.tree_util.tree_map(lambda v: lib.jnp.array(v) if isinstance(v, lib.jax.Array) else v, data)
    c = mon.call(name, solver.reduce, copy)
    mon.check(bits(a) == bits(c), name + ": an equal dataset gives another result", **info)
    jfn = lib.eqx.filter_jit(solver.reduce)
    j1, j2 = mon.call(name + " (jit)", jfn, data), mon.call(name + " (jit)", jfn, data)
    mon.check(bits(j1) == bits(j2), name + ": a second compiled run differs", **info)
    ia, ij = np.asarray(a[0].unweighted_indices), np.asarray(j1[0].unweighted_indices)
    if name in ("caratheodory", "tree"):
        com = [np.average(np.asarray(v[0].points.data), axis=0, weights=np.asarray(v[0].points.weights)) for v in (a, j1)]
        mon.close(com[1], com[0], name + ": compiled centre of mass differs", atol=1e-8)
    elif case["x64"] and pool(name, n, info) // size >= 4:
        mon.check(np.array_equal(ia, ij), name + ": compiled selection differs", eager=ia, compiled=ij, **info)
    else:
        mon.check(ia.shape == ij.shape, name + ": compiled size differs", eager=ia, compiled=ij, **info)
    watch.done(**info)
    mon.sig(name, n, size, case["x64"], ia.tolist()[:6])
    mon.sample(indices=ia, **info)
    if hasattr(solver, "refine"):
        pos = r.permutation(n)[:size]
        init = lib.Coresubset(lib.Data(lib.jnp.asarray(pos, dtype=lib.jnp.int32)), data)
        watch = Watch(mon, name + " refine", dataset=data, solver=solver, initial=init)
        p = mon.call(name + " refine", solver.refine, init)
        q = mon.call(name + " refine", solver.refine, init)
        watch.done(**info)
        mon.check(bits(p) == bits(q), name + ": a second refine differs", init=pos, **info)
        s = mon.call(name + " refine (jit)", lib.eqx.filter_jit(solver.refine), init)
        if case["x64"]:
            mon.check(
                np.array_equal(np.asarray(p[0].unweighted_indices), np.asarray(s[0].unweighted_indices)),
                name + ": compiled refinement differs", eager=p[0].unweighted_indices, compiled=s[0].unweighted_indices, **info,
            )  # fmt: skip


def state_case(case, mon, r):
    """Histories of reduce and refine calls with the returned state passed back or not."""
    name = case["name"]
    n, size = int(r.choice([15, 26])), int(r.integers(2, 6))
    x, data = dataset(r, name, n, True)
    solver, info = zoo.make(r, name, n, size, gen.scale_of(x), fam=str(r.choice(["se", "rq", "lap"])))
    if name in zoo.SUPERVISED:
        solver = lib.eqx.tree_at(lambda s: s.regularisation_parameter, solver, 0.1)
    info["x"] = x
    red, refi = lib.eqx.filter_jit(solver.reduce), lib.eqx.filter_jit(solver.refine)
    cs0, st = mon.call(name, red, data)
    warm = mon.call(name, red, data, st)[0] if st is not None else cs0
    ind = lambda c: np.asarray(c.unweighted_indices)  # noqa: E731
    mon.check(np.array_equal(ind(cs0), ind(warm)), name + ": cached state changed reduce", cold=ind(cs0), warm=ind(warm), **info)
    cur_a, cur_b, st_b = cs0, cs0, st
    watch = Watch(mon, name, dataset=data, state=st, first=cs0)
    for step in range(4):
        if step == 2:  # another start, same dataset
            start = lib.Coresubset(lib.Data(lib.jnp.asarray(r.permutation(n)[:size], dtype=lib.jnp.int32)), data)
            cur_a = cur_b = start
        cur_a, st_a = mon.call(name + " refine", refi, cur_a)
        cur_b, st_b = mon.call(name + " refine", refi, cur_b, st_b)
        mon.check(
            np.array_equal(ind(cur_a), ind(cur_b)), name + ": cached state changed refine", step=step, cold=ind(cur_a),
            warm=ind(cur_b), **info,
        )  # fmt: skip
        if st_a is not None:
            for u, v in zip(lib.jax.tree_util.tree_leaves(st_a), lib.jax.tree_util.tree_leaves(st_b)):
                mon.close(v, np.asarray(u, dtype=float), name + ": returned states differ", rtol=1e-12)
        mon.sig(name, "state", step, ind(cur_a).tolist()[:5])
    watch.done(**info)


def other_case(case, mon, r):
    name = case["name"]
    n, m, d = int(r.integers(5, 20)), int(r.integers(3, 9)), int(r.integers(1, 4))
    x, y = gen.points(r, n, d), gen.points(r, m, d)
    w, v = gen.weights(r, n, "rand"), gen.weights(r, m, "rand")
    ls = gen.scale_of(x)
    spec = gen.kernel(r, str(r.choice(["se", "rq", "pcimq"])), ls)
    k = ref.build(spec)
    jnp = lib.jnp
    sx, sy = r.normal(size=(n, 1)), r.normal(size=(m, 1))
    sup = name in ("jmmd", "amcmd")
    dx, dy = greedy.to_data(x, w, sx if sup else None), greedy.to_data(y, v, sy if sup else None)
    bs = [None, 2, 5][int(r.integers(3))]
    key = lib.jr.key(gen.seed(r))
    k2 = ref.build(gen.kernel(r, "se", 1.0))
    tol = 1e-9
    if name in METRICS:
        obj = {
            "mmd": lambda: lib.MMD(k), "ksd": lambda: lib.KSD(k, score_matching=lib.KernelDensityMatching(ls)),
            "jmmd": lambda: lib.JMMD(k, k2), "amcmd": lambda: lib.AMCMD(k, k2, 0.1),
        }[name]()  # fmt: skip
        fn = (lambda a, b: obj.compute(a, b)) if name == "amcmd" else (lambda a, b: obj.compute(a, b, block_size=bs))
        args = (dx, dy)
    elif name in ("sbq", "mmdw"):
        obj = lib.SBQWeightsOptimiser(k) if name == "sbq" else lib.MMDWeightsOptimiser(k)
        fn, args = (lambda a, b: obj.solve(a, b, epsilon=1e-3)), (dx, dy)
        tol = 1e-6 if name == "sbq" else 1e-4
    elif name == "kdm":
        obj = lib.KernelDensityMatching(ls)
        fn, args = (lambda a, b: obj.match(a)(b)), (jnp.asarray(x), jnp.asarray(y))
    elif name in ("nystrom", "montecarlo", "annchor"):
        cls = {"nystrom": lib.NystromApproximateKernel, "montecarlo": lib.MonteCarloApproximateKernel,
               "annchor": lib.ANNchorApproximateKernel}[name]  # fmt: skip
        obj = cls(k, random_key=key, num_kernel_points=3, num_train_points=4)
        fn, args = (lambda a: obj.gramian_row_mean(a)), (jnp.asarray(x),)
        tol = 1e-6
    elif name in ("lstsq", "rand-eig"):
        obj = lib.MinimalEuclideanNormSolver() if name == "lstsq" else lib.RandomisedEigendecompositionSolver(key)
        gram = jnp.asarray(ref.ref(spec).k(x, x) + np.eye(n))
        fn, args = (lambda a, b: obj.solve(a, 1e-2, b, jnp.eye(n))), (gram, jnp.asarray(sx))
    else:
        obj = k
        fn, args = (lambda a: obj.gramian_row_mean(a, block_size=bs)), (dx,)
    info = {"name": name, "spec": spec, "x": x, "y": y, "block_size": bs}
    watch = Watch(mon, name, component=obj, arguments=args)
    a = mon.call(name, fn, *args)
    b = mon.call(name, fn, *args)
    mon.check(bits(a) == bits(b), name + ": a second run differs", first=a, second=b, **info)
    c = mon.call(name + " (jit)", lib.eqx.filter_jit(fn), *args)
    mon.close(c, np.asarray(a, dtype=float), name + ": compiled result differs", rtol=tol, atol=tol * 1e-2, **info)
    watch.done(**info)
    mon.sig(name, n, m, d, bs, np.round(np.ravel(np.asarray(a, dtype=float))[:2], 6))


SCRIPT = """
import sys, hashlib
import jax; jax.config.update("jax_enable_x64", True); jax.config.update("jax_platforms", "cpu")
sys.path.insert(0, {root!r})
import numpy as np
from cxmon import gen, greedy, zoo
for name in {names!r}:
    r = gen.rng("process", {seed}, name)
    n = 20
    x = gen.points(r, n, 2)
    data = greedy.to_data(x, None, r.normal(size=(n, 1)) if name in zoo.SUPERVISED else None)
    solver, _ = zoo.make(r, name, n, 4, 1.0, fam="se")
    cs, _ = solver.reduce(data)
    print(name, np.asarray(cs.unweighted_indices).tolist(), hashlib.md5(np.asarray(cs.points.weights).tobytes()).hexdigest())
"""


def process_case(case, mon, r):
    """The same calls in fresh processes with other hash seeds give the same coresets."""
    names = ["random-weighted", "herding-prob", "rpc", "gkp-batch", "mr-herding", "tree"]
    order = [names, names[::-1]]
    root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    procs = []
    for i in (0, 1):
        env = dict(os.environ, PYTHONHASHSEED=str(1 + 1000 * i), PYTHONDONTWRITEBYTECODE="1")
        code = SCRIPT.format(root=root, names=order[i], seed=case["seed"])
        procs.append(subprocess.Popen([sys.executable, "-c", code], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True))
    outs = []
    for p in procs:
        out, err = p.communicate(timeout=280)
        mon.need(p.returncode == 0, "process: solvers failed", error=err[-800:])
        outs.append(dict(line.split(" ", 1) for line in out.splitlines()))
    for name in names:
        mon.check(
            outs[0].get(name) == outs[1].get(name), name + ": differs between processes", first=outs[0].get(name),
            second=outs[1].get(name),
        )  # fmt: skip
        mon.sig("process", name, outs[0].get(name))
