"""Random selections follow their documented distributions."""

import itertools

import numpy as np

from cxmon import gen, greedy, lib, ref
from cxmon.law import Law
from cxmon.props.c04 import law_test

RULE = (
    "a case runs a real random solver under 3000 to 8000 keys, records every draw and tests the recorded sequences "
    "against the exact conditional law (every step and row to six standard errors, successive draws uncorrelated), or "
    "against the exact law of the last sweep of an iterated solver computed by enumerating all ordered coresubsets; "
    "non-trivial: more than one row has a probability in (0.001, 0.999); distinct: by solver, sizes, weights, temperature, law"
)
ASSUMPTIONS = [
    "laws are tested to six standard errors over the recorded draws",
    "weighted draws without replacement need at least coreset_size positively weighted rows",
]
KINDS = ["random", "herd", "iter", "random", "refine", "limit", "random", "keys", "herd", "iter", "random", "reuse"]


def cases(tier, seed, rnd):
    r = gen.rng("C27", seed, rnd)
    for i in range(32 if tier == "quick" else 120):
        kind = KINDS[i % len(KINDS)]
        yield {"kind": kind, "x64": i % 5 != 4, "seed": gen.seed(r), "cost": {"random": 1}.get(kind, 3), "i": i}


def run(case, mon):
    r = gen.rng(case["seed"])
    {"random": random, "herd": herd, "refine": herd, "iter": iterated, "limit": limit, "keys": keys, "reuse": reuse}[
        case["kind"]
    ](case, mon, r)


def many(mon, label, solver, fn, r, runs):
    """Draw under many keys; returns the recorded indices (runs, size)."""
    jax = lib.jax

    def one(key):
        return fn(lib.eqx.tree_at(lambda s: s.random_key, solver, key))[0].unweighted_indices

    ks = lib.jr.split(lib.jr.key(gen.seed(r)), runs)
    return np.asarray(mon.call(label, jax.jit(jax.vmap(one)), ks))


def random(case, mon, r):
    n = int(r.choice([2, 3, 5, 8, 12]))
    unique, weighted = bool(r.integers(3) > 0), bool(r.integers(3) > 0)
    kind = str(r.choice(["none", "rand", "zeros", "skew", "int", "big", "small"]))
    w = gen.weights(r, n, kind)
    a = ref.norm_weights(w, n)
    top = int((a > 0).sum()) if weighted else n
    size = int(r.integers(1, (top if unique else n) + 1))
    size = min(size, 8)
    sup = bool(r.integers(4) == 0)
    x = gen.points(r, n, 2)
    data = greedy.to_data(x, w, r.normal(size=(n, 1)) if sup else None)
    solver = lib.RandomSample(size, lib.jr.key(0), weighted=weighted, unique=unique)
    info = {"n": n, "size": size, "unique": unique, "weighted": weighted, "w": w}
    runs = 4000
    out = many(mon, "RandomSample", solver, lambda s: s.reduce(data), r, runs)
    mon.need(out.shape == (runs, size), "wrong size", got=out.shape, **info)
    mon.need(bool(np.all((out >= 0) & (out < n))), "index out of range", **info)
    base = a if weighted else np.full(n, 1.0 / n)
    law = Law(mon, "RandomSample", r, info)
    rows = np.arange(runs)
    free = np.ones((runs, n))
    for step in range(size):
        p = base[None] * free
        p = p / p.sum(axis=1, keepdims=True)
        bad = p[rows, out[:, step]] <= 0
        mon.need(
            not bad.any(), "RandomSample drew an inadmissible row", step=step, row=out[np.argmax(bad)], **info
        )  # fmt: skip
        law.step(p, out[:, step], step)
        if unique:
            free[rows, out[:, step]] = 0
    mon.sig("random", unique, weighted, kind, n, size)
    mon.sample(first=out[:5], **info)


def setting(r, x64, n=None):
    n = int(r.choice([3, 5, 8])) if n is None else n
    d = int(r.integers(1, 3))
    x = gen.points(r, n, d, str(r.choice(["normal", "clusters", "shift"])))
    w = gen.weights(r, n, str(r.choice(["none", "rand", "int", "zeros"])), min_pos=max(2, n - 1))
    spec = gen.kernel(r, str(r.choice(["se", "rq", "lap", "lin", "mat"])), gen.scale_of(x))
    kern = ref.ref(spec)
    n_pos = int((ref.norm_weights(w, n) > 0).sum())
    return n, x, w, spec, kern, n_pos


def herd(case, mon, r):
    n, x, w, spec, kern, n_pos = setting(r, case["x64"])
    unique = bool(r.integers(3) > 0)
    size = int(r.integers(1, n_pos + 1))
    temp = float(r.choice([0.02, 0.1, 0.5, 5.0, 1e4])) * greedy.objective_scale(kern, x)
    bs = greedy.block(r, n)
    cls = lib.KernelHerding
    solver = cls(
        coreset_size=size, kernel=ref.build(spec), unique=unique, probabilistic=True, temperature=temp, block_size=bs
    )
    info = {"spec": spec, "x": x, "w": w, "size": size, "unique": unique, "temperature": temp, "block_size": bs}
    data = greedy.to_data(x, w)
    runs = 3000
    init = None
    if case["kind"] == "refine":
        pos = np.flatnonzero(ref.norm_weights(w, n) > 0)
        init = r.permutation(pos)[:size]
        cs = lib.Coresubset(lib.Data(lib.jnp.asarray(init, dtype=lib.jnp.int32)), data)
        info["init"] = init
        out = many(mon, "probabilistic refine", solver, lambda s: s.refine(cs), r, runs)
    else:
        out = many(mon, "probabilistic reduce", solver, lambda s: s.reduce(data), r, runs)
    mon.need(out.shape == (runs, size), "wrong size", got=out.shape, **info)
    mon.need(bool(np.all((out >= 0) & (out < n))), "index out of range", **info)
    law_test(mon, kern, x, w, out, unique, temp, info, init=init)
    mon.sample(first=out[:5], **info)


def sweep(kern, x, w, unique, temp, law, size):
    """Exact law after one more sweep; `law` maps ordered tuples (None: empty slot) to probabilities."""
    n = len(x)
    a = ref.norm_weights(w, n)
    gram = kern.k(x, x)
    mean = gram @ a
    for step in range(size):
        new = {}
        for state, p in law.items():
            others = [m for j, m in enumerate(state) if j != step and m is not None]
            obj = mean - (gram[:, others].sum(axis=1) if others else 0.0) / (len(others) + 1)
            ok = a > 0
            if unique:
                ok = ok & ~np.isin(np.arange(n), others)
            z = np.where(ok, obj / temp, -np.inf)
            q = np.exp(z - z.max())
            q /= q.sum()
            for j in np.flatnonzero(q > 0):
                s2 = state[:step] + (int(j),) + state[step + 1 :]
                new[s2] = new.get(s2, 0.0) + p * q[j]
        law = new
    return law


def iterated(case, mon, r):
    """The last sweep of reduce_iterative follows the law of that many independent sweeps."""
    n, x, w, spec, kern, n_pos = setting(r, case["x64"], int(r.choice([3, 4, 5])))
    unique = bool(r.integers(3) > 0)
    size = int(r.integers(1, min(3, n_pos) + 1))
    iters = int(r.integers(1, 4))
    sc = greedy.objective_scale(kern, x)
    temps = np.array([float(r.choice([0.02, 0.1, 0.5, 50.0])) * sc for _ in range(iters)])
    schedule = bool(r.integers(3) > 0)
    if not schedule:
        temps[:] = temps[0]
    wrap = bool(r.integers(2))
    cls = lib.IterativeKernelHerding if wrap else lib.KernelHerding
    sch = lib.jnp.asarray(temps) if schedule else None
    temp0 = 1e6 * sc if schedule else float(temps[0])
    args = {"coreset_size": size, "kernel": ref.build(spec), "unique": unique, "probabilistic": True, "temperature": temp0}
    if schedule:
        args["temperature"] = lib.jnp.asarray(temp0)
    info = {"spec": spec, "x": x, "w": w, "size": size, "unique": unique, "temps": temps, "schedule": schedule, "iters": iters}
    data = greedy.to_data(x, w)
    runs = 8000
    if wrap:
        solver = cls(num_iterations=iters, t_schedule=sch, **args)
        fn = lambda s: s.reduce(data)  # noqa: E731
    else:
        solver = cls(**args)
        fn = lambda s: s.reduce_iterative(data, num_iterations=iters, t_schedule=sch)  # noqa: E731
    out = many(mon, "reduce_iterative", solver, fn, r, runs)
    mon.need(out.shape == (runs, size), "wrong size", got=out.shape, **info)
    mon.need(bool(np.all((out >= 0) & (out < n))), "index out of range", **info)
    law = {(None,) * size: 1.0}
    for t in temps:
        law = sweep(kern, x, w, unique, float(t), law, size)
    seen = {}
    for row in out:
        k = tuple(int(i) for i in row)
        seen[k] = seen.get(k, 0) + 1
    for state in itertools.chain(law, (s for s in seen if s not in law)):
        p = law.get(state, 0.0)
        got = seen.get(state, 0)
        lim = 6 * np.sqrt(runs * p * (1 - p)) + 4 * (p > 0)
        mon.check(
            abs(got - runs * p) <= lim, "iterated sweeps do not follow their law", state=state, observed=got,
            expected=runs * p, **info,
        )  # fmt: skip
        mon.margins["iterated law"] = max(mon.margins.get("iterated law", 0), abs(got - runs * p) / (lim + 1e-9))
    # coarse statistic: total variation, dominated by systematic deviations
    probs = np.array([law.get(s, 0.0) for s in law])
    cnt = np.array([seen.get(s, 0) for s in law])
    chi = ((cnt - runs * probs) ** 2 / (runs * probs + 1e-12))[probs * runs >= 5]
    if chi.size > 1:
        mon.check(
            chi.sum() <= chi.size + 8 * np.sqrt(2 * chi.size) + 30, "iterated sweeps do not follow their law",
            chi2=float(chi.sum()), cells=int(chi.size), **info,
        )  # fmt: skip
    mon.sig("iter", n, size, iters, schedule, unique, wrap, np.round(np.sort(probs)[-3:], 2))
    mon.sample(seen=dict(list(seen.items())[:5]), **info)


def reuse(case, mon, r):
    """One more sweep makes fresh draws: it seldom reproduces the coresubset of the sweep before."""
    n, x, w, spec, kern, n_pos = setting(r, case["x64"], int(r.choice([6, 8])))
    size = int(r.integers(2, 4))
    sc = greedy.objective_scale(kern, x)
    data = greedy.to_data(x, w)
    runs = 1000
    for schedule in (True, False):
        temps = np.full(4, 100.0 * sc)
        outs = []
        key_seed = gen.seed(r)
        for iters in (1, 2, 3):
            solver = lib.KernelHerding(
                coreset_size=size, kernel=ref.build(spec), probabilistic=True, temperature=lib.jnp.asarray(100.0 * sc)
            )
            sch = lib.jnp.asarray(temps[:iters]) if schedule else None
            fn = lambda s, i=iters, t=sch: s.reduce_iterative(data, num_iterations=i, t_schedule=t)  # noqa: E731
            outs.append(many(mon, "reduce_iterative", solver, fn, gen.rng(key_seed), runs))
        p = 1.0
        for j in range(size):
            p /= n_pos - size + 1  # probability that a uniform sweep changes nothing
        info = {"x": x, "w": w, "spec": spec, "size": size, "schedule": schedule}
        for a, b in ((0, 1), (1, 2)):
            same = int(np.all(outs[a] == outs[b], axis=1).sum())
            lim = runs * p * 1.5 + 6 * np.sqrt(runs * p) + 6
            mon.check(same <= lim, "successive sweeps repeat the same draws", same=same, limit=lim, runs=runs, **info)
        mon.sig("reuse", schedule, n, size)


def limit(case, mon, r):
    """A vanishing temperature recovers the deterministic choice, a huge one the uniform."""
    n = int(r.choice([6, 9, 14]))
    size = int(r.integers(1, n))
    unique = bool(r.integers(2))
    for _ in range(4):
        x = gen.points(r, n, 2, str(r.choice(["normal", "clusters"])))
        w = gen.weights(r, n, str(r.choice(["none", "rand"])))
        spec = gen.kernel(r, str(r.choice(["se", "rq", "lap"])), gen.scale_of(x))
        kern = ref.ref(spec)
        data = greedy.to_data(x, w)
        det, _ = mon.call("reduce", lib.KernelHerding(size, ref.build(spec), unique=unique).reduce, data)
        idx = greedy.indices(mon, det, n, size, "deterministic reduce")
        tr = greedy.herding(kern, x, w, [None] * size, idx, unique)
        info = {"x": x, "w": w, "spec": spec, "size": size, "unique": unique, "gap": tr.gap}
        floor = (1e-9 if case["x64"] else 1e-4) * greedy.objective_scale(kern, x)
        if tr.gap < 10 * floor:
            continue
        temp = tr.gap / 60
        solver = lib.KernelHerding(size, ref.build(spec), unique=unique, probabilistic=True, temperature=temp)
        out = many(mon, "cold reduce", solver, lambda s: s.reduce(data), r, 64)
        mon.check(
            bool(np.all(out == idx[None])), "a vanishing temperature does not give the deterministic choice",
            got=out[np.argmax(np.any(out != idx[None], axis=1))], want_=idx, temperature=temp, **info,
        )  # fmt: skip
        cold = lib.jnp.asarray([1e3, temp])
        fn = lambda s: s.reduce_iterative(data, num_iterations=2, t_schedule=cold)  # noqa: E731
        solver = lib.KernelHerding(
            size, ref.build(spec), unique=unique, probabilistic=True, temperature=lib.jnp.asarray(1.0)
        )
        out = many(mon, "cooled reduce_iterative", solver, fn, r, 64)
        for row in out[:8]:
            mon.check(len(row) == size and bool(np.all((row >= 0) & (row < n))), "cooled sweep: malformed", row=row, **info)
        mon.sig("limit", n, size, unique, spec[0], idx.tolist()[:5])


def keys(case, mon, r):
    """Equal keys give equal draws, different keys different ones; legacy keys are accepted."""
    n, size = 40, 12
    x = gen.points(r, n, 2)
    data = greedy.to_data(x, None)
    sup = greedy.to_data(x, None, r.normal(size=(n, 1)))
    kern = ref.build(["se", 1.0, 1.0])
    s1, s2 = gen.seed(r), gen.seed(r)
    makers = {
        "random": lambda k: lib.RandomSample(size, k).reduce(data),
        "random-replace": lambda k: lib.RandomSample(size, k, unique=False).reduce(data),
        "herding": lambda k: lib.KernelHerding(size, kern, probabilistic=True, temperature=1.0, random_key=k).reduce(data),
        "rpc": lambda k: lib.RPCholesky(coreset_size=size, random_key=k, kernel=kern).reduce(data),
        "gkp": lambda k: lib.GreedyKernelPoints(
            coreset_size=size, random_key=k, feature_kernel=kern, candidate_batch_size=4
        ).reduce(sup),
    }  # fmt: skip
    for name, fn in makers.items():
        for mk in (lib.jr.key, lib.jr.PRNGKey):
            a = np.asarray(mon.call(name, fn, mk(s1))[0].unweighted_indices)
            b = np.asarray(mon.call(name, fn, mk(s1))[0].unweighted_indices)
            c = np.asarray(mon.call(name, fn, mk(s2))[0].unweighted_indices)
            mon.check(np.array_equal(a, b), name + ": equal keys, different draws", a=a, b=b, key=s1)
            mon.check(not np.array_equal(a, c), name + ": different keys, equal draws", a=a, keys=(s1, s2))
        mon.sig("keys", name, a.tolist()[:4])
