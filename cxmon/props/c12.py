"""MapReduce equals its base solver on decomposable problems and always ends."""

import warnings

import numpy as np

from cxmon import gen, greedy, lib, ref

RULE = (
    "a case runs MapReduce over an instrumented base solver (k best rows of a score) or a real one, for several leaf sizes and "
    "both tree types; every call of the base solver is recorded with the ids of the rows it saw and chose, and a conservation "
    "law over the record decides that every row was seen once in the first level; distinct: by n, coreset size, leaf size, tree "
    "type, number of base calls and result"
)
ASSUMPTIONS = [
    "the base solver ignores zero-weighted rows and returns a coresubset",
    "dataset weights are positive",
    "termination is judged by a time limit three orders of magnitude above a normal run",
]
TREES = ["KDTree", "BallTree"]


def cases(tier, seed, rnd):
    r = gen.rng("C12", seed, rnd)
    reps = 20 if tier == "quick" else 90
    for i in range(reps):
        yield {"kind": "decomposable", "x64": bool(i % 2), "seed": gen.seed(r), "cost": 2, "timeout": 120, "big": i % 6 == 0}
    for i in range(8 if tier == "quick" else 30):
        name = ["herding", "stein", "random", "herding"][i % 4]
        yield {"kind": "real", "name": name, "x64": bool((i // 2) % 2), "seed": gen.seed(r), "cost": 4, "timeout": 150}


def best_solver():
    """A padding-invariant coresubset solver whose result does not depend on the partition."""
    if "cls" in CACHE:
        return CACHE["cls"]
    jnp, jax = lib.jnp, lib.jax

    class Best(lib.CoresubsetSolver, lib.ExplicitSizeSolver, lib.PaddingInvariantSolver):
        """The coreset_size positively weighted rows of largest column `col` (negated if `sign` is -1)."""

        sign: float = 1.0
        col: int = 1
        record: object = None

        def reduce(self, dataset, solver_state=None):
            shape = jax.ShapeDtypeStruct((self.coreset_size,), jnp.int32)
            cols = dataset.data[:, 0], dataset.data[:, self.col], dataset.weights
            idx = jax.pure_callback(self.record.choose(self.coreset_size, self.sign), shape, *cols, vmap_method="broadcast_all")
            return lib.Coresubset(lib.Data(idx), dataset), None

    CACHE["cls"] = Best
    return Best


CACHE = {}


class Recorder:
    """Log of what the base solver saw and chose, by row id (column 0)."""

    def __init__(self):
        self.calls = []

    def choose(self, size, sign):
        def fun(ids, score, weights):
            ids, score, weights = (np.asarray(a) for a in (ids, score, weights))
            rank = np.where(weights > 0, sign * score, -np.inf)
            idx = np.argsort(-rank, axis=-1, kind="stable")[..., :size].astype(np.int32)
            m = ids.shape[-1]
            for one in zip(ids.reshape(-1, m), weights.reshape(-1, m), idx.reshape(-1, size)):
                self.calls.append(tuple(a.copy() for a in one))
            return idx

        return fun

    def __hash__(self):
        return 1

    def __eq__(self, other):
        return self is other


def tree(name):
    import sklearn.neighbors as nb

    return getattr(nb, name)


def mapreduce(mon, base, leaf, tree_name):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return mon.call("MapReduce", lib.MapReduce, base_solver=base, leaf_size=leaf, tree_type=tree(tree_name))


def run(case, mon):
    r = gen.rng(case["seed"])
    if case["kind"] == "real":
        return real(case, mon, r)
    jnp, jax = lib.jnp, lib.jax
    best = best_solver()
    n = int(r.integers(150, 700)) if case["big"] else int(r.choice([1, 2, 3, 5, 8, 13, 16, 17, 31, 32, 33, 50, 64, 65, 100]))
    d = int(r.integers(2, 5))
    geom = str(r.choice(["normal", "dups", "clusters", "big", "same", "line", "shift", "ints"]))
    x = gen.points(r, n, d, geom)
    # distinct scores, of both signs, none zero; ids from 1 as padding has zeros
    x[:, 1] = r.permutation(n) - int(r.integers(0, n + 1)) + 0.5
    x[:, 0] = np.arange(1, n + 1)
    wk = str(r.choice(["none", "rand", "int", "scalar", "big"]))
    w = gen.weights(r, n, wk)
    sup = bool(r.integers(3) == 0)
    y = gen.points(r, n, 1) if sup else None
    ds = greedy.to_data(x, w, y)
    for rep in range(3):
        size = int(r.integers(1, min(n, 12) + 1)) if r.integers(4) else int(r.integers(1, n + 1))
        leaf = size + int(r.choice([1, 1, 2, 3, 7, size, n, 2 * size + 1]))
        tn = TREES[int(r.integers(2))]
        rec = Recorder()
        sign = float(r.choice([1.0, -1.0]))
        base = best(coreset_size=size, sign=sign, record=rec)
        solver = mapreduce(mon, base, leaf, tn)
        info = {"n": n, "size": size, "leaf_size": leaf, "tree": tn, "sign": sign, "x": x, "w": w}
        jit = n > 40 or bool(r.integers(2))
        fn = jax.jit(lambda ds: solver.reduce(ds)[0]) if jit else lambda ds: solver.reduce(ds)[0]
        cs = mon.call("reduce", fn, ds)
        out = greedy.indices(mon, cs, n, size, "MapReduce")
        info["calls"] = len(rec.calls)
        want = np.argsort(-sign * x[:, 1])[:size]
        mon.check(np.array_equal(out, want), "MapReduce equals the base solver on the whole dataset", got=out, want=want, **info)
        pts = np.asarray(cs.points.data, dtype=float)
        mon.check(np.array_equal(pts, x[out]), "points are the original rows", got=pts[:3], want=x[out][:3], **info)
        if sup:
            ok = np.array_equal(np.asarray(cs.points.supervision, dtype=float), y[out])
            mon.check(ok, "supervision is the original rows'", **info)
        mon.check(np.array_equal(np.asarray(cs.pre_coreset_data.data), np.asarray(ds.data)), "pre_coreset_data is the dataset", **info)
        conserve(mon, rec, n, size, out, x, info)
        if len(rec.calls) == 1:
            seen = rec.calls[0][0]
            mon.check(len(seen) == n, "a single call of the base solver sees the dataset", got=len(seen), **info)
        if n <= leaf:
            mon.check(len(rec.calls) == 1 and len(rec.calls[0][0]) == n, "no more than a leaf: the base solver runs once, unpadded", **info)
        mon.sig(n, size, leaf, tn, len(rec.calls), out.tolist()[:8])
        if rep == 0:
            mon.sample(out=out, want=want, sizes=[len(c[0]) for c in rec.calls][:12], **info)


def conserve(mon, rec, n, size, out, x, info):
    """Every row enters once; a row enters again exactly when it was chosen; what is chosen last is the result."""
    seen, chosen = np.zeros(n + 1, dtype=int), np.zeros(n + 1, dtype=int)
    for ids, weights, idx in rec.calls:
        real_rows = ids[weights > 0].astype(int)
        if not mon.check(bool(np.all((real_rows >= 1) & (real_rows <= n))), "the base solver saw a weighted row that is not in the dataset", ids=real_rows, **info):
            return
        mon.check(len(np.unique(real_rows)) == len(real_rows), "a row appears once in a partition", ids=real_rows, **info)
        np.add.at(seen, real_rows, 1)
        picked = ids[idx].astype(int)
        mon.check(len(real_rows) >= size and bool(np.all(picked >= 1)), "a partition has fewer real rows than are chosen from it",
                  rows=len(real_rows), **info)  # fmt: skip
        np.add.at(chosen, np.maximum(picked, 0), 1)
    mon.check(bool(np.all(seen[1:] >= 1)), "every row is presented to the base solver", missing=np.flatnonzero(seen[1:] == 0), **info)
    final = np.zeros(n + 1, dtype=int)
    final[out + 1] = 1
    entries = seen[1:] - chosen[1:] + final[1:]
    mon.check(bool(np.all(entries == 1)), "every row enters exactly once in the first level", entries=entries, **info)


def real(case, mon, r):
    """Real base solvers: integrity, and identity with the base solver up to the leaf size."""
    eqx = lib.eqx
    name = case["name"]
    n = int(r.choice([5, 9, 17, 24, 33, 40]))
    d = int(r.integers(1, 4))
    size = int(r.integers(1, n // 2 + 1))
    spec = gen.kernel(r, str(r.choice(["se", "pcimq", "rq"])), 1.0)
    kern = ref.build(spec)
    if name == "herding":
        base = lib.KernelHerding(coreset_size=size, kernel=kern)
    elif name == "stein":
        base = lib.SteinThinning(coreset_size=size, kernel=kern, regularise=bool(r.integers(2)))
    else:
        base = lib.RandomSample(coreset_size=size, random_key=lib.jr.key(gen.seed(r)), weighted=True)
    direct = eqx.filter_jit(lambda ds: base.reduce(ds)[0])
    leaves = [n + int(r.integers(3)), int(r.integers(size + 1, n))]
    for leaf in leaves[:2] if name != "stein" else [leaves[int(r.integers(2))]]:
        leaf = max(leaf, size + 1)
        tn = TREES[int(r.integers(2))]
        solver = mapreduce(mon, base, leaf, tn)
        fn = eqx.filter_jit(lambda ds: solver.reduce(ds)[0])
        for geom in ("normal", "dups", "shift"):
            x = gen.points(r, n, d, geom)
            if geom == "shift":
                x = gen.f32(x + 50.0)
            ds = greedy.to_data(x, gen.weights(r, n, "rand" if geom == "normal" else "none"))
            info = {"n": n, "size": size, "leaf_size": leaf, "tree": tn, "base": name, "spec": spec, "geom": geom, "x": x}
            cs = mon.call("reduce", fn, ds)
            out = greedy.indices(mon, cs, n, size, "MapReduce")
            mon.check(np.array_equal(np.asarray(cs.points.data, dtype=float), x[out]), "points are the original rows", out=out, **info)
            mon.check(len(set(out.tolist())) == size, "distinct rows", out=out, **info)
            if n <= leaf:
                want = np.asarray(mon.call("reduce", direct, ds).unweighted_indices)
                mon.check(np.array_equal(want, out), "no more than a leaf: equals the base solver", got=out, want=want, **info)
            mon.sig(name, n, size, leaf, tn, out.tolist()[:8])
