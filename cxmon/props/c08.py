"""RPCholesky samples pivots in proportion to the residual diagonal."""

import numpy as np

from cxmon import gen, greedy, lib, ref

RULE = (
    "a case reduces one dataset under thousands of random keys with the real solver, recomputes in float64 the residual "
    "diagonal before every recorded pivot, and tests the observed pivots against its law (martingale sums, six standard "
    "errors); the returned state is compared with the residual after the last pivot; non-trivial: residual mass above "
    "1e-6 of the trace; distinct: by kernel, sizes, geometry and pivot prefixes"
)
ASSUMPTIONS = [
    "the law is not judged while the residual is pure rounding noise (below 1e-6 of the kernel scale but not exactly zero)",
]
FAMS = ["se", "pcimq", "rq", "mat", "exp", "lap", "lin", "poly", "comp"]


def cases(tier, seed, rnd):
    r = gen.rng("C08", seed, rnd)
    n = 26 if tier == "quick" else 90
    kinds = ["law", "law", "state", "exhausted", "law", "large"]
    for i in range(n):
        yield {"kind": kinds[i % 6], "x64": i % 5 != 4, "seed": gen.seed(r), "cost": 2}


def residual(gram, chosen):
    """Diagonal of K - K_S K_SS^+ K_S."""
    s = list(dict.fromkeys(chosen))
    diag = np.diag(gram).copy()
    if not s:
        return diag
    sub = gram[np.ix_(s, s)]
    proj = np.linalg.lstsq(sub, gram[s], rcond=1e-12)[0]
    res = diag - np.einsum("ij,ij->j", gram[s], proj)
    res[s] = 0.0
    return np.clip(res, 0.0, None)


def run(case, mon):
    r = gen.rng(case["seed"])
    jax, eqx = lib.jax, lib.eqx
    kind = case["kind"]
    d = int(r.integers(1, 4))
    n = {"law": int(r.integers(2, 8)), "state": int(r.integers(2, 25)), "exhausted": int(r.integers(3, 7)), "large": 60}[kind]
    size = int(r.integers(1, n + 1)) if kind != "large" else int(r.integers(5, 25))
    unique = bool(r.integers(3) > 0)
    exact = False
    if kind == "exhausted":
        size = int(r.integers(2, n + 1))
        which = int(r.integers(3))
        if which == 0:  # rank one, exactly: all rows equal, k = 4 everywhere
            x = np.ones((n, 1))
            spec = ["lin", 3.0, 1.0]
        elif which == 1:  # K = I exactly
            x = 1e4 * np.arange(n)[:, None]
            spec = ["se", 1.0, 1.0]
        else:  # two groups of equal rows, k in {0, 1} exactly
            x = 1e4 * (np.arange(n) % 2)[:, None].astype(float)
            spec = ["se", 1.0, 1.0]
        exact = True
    else:
        geom = str(r.choice(["normal", "clusters", "outlier", "dups", "shift"]))
        x = gen.points(r, n, d, geom)
        spec = gen.kernel(r, FAMS[int(r.integers(len(FAMS)))], gen.scale_of(x) * 0.7)
    kern = ref.ref(spec)
    gram = kern.k(x, x)
    scale = float(np.max(np.abs(np.diag(gram))))
    ds = greedy.to_data(x)
    info = {"spec": spec, "x": x, "size": size, "unique": unique}
    runs = {"law": 4000, "exhausted": 4000, "state": 6, "large": 400}[kind]
    key0 = lib.jr.key(gen.seed(r))
    solver = mon.call("RPCholesky", lib.RPCholesky, coreset_size=size, random_key=key0, kernel=ref.build(spec), unique=unique)

    def one(key):
        cs, st = eqx.tree_at(lambda s: s.random_key, solver, key).reduce(ds)
        return cs.unweighted_indices, st.gramian_diagonal

    keys = lib.jr.split(key0, runs)
    outs, states = mon.call("reduce", jax.jit(jax.vmap(one)), keys)
    outs, states = np.asarray(outs), np.asarray(states, dtype=float)
    eager, _ = mon.call("reduce", solver.reduce, ds)
    greedy.indices(mon, eager, n, size, "reduce")
    mon.need(outs.shape == (runs, size), "wrong number of pivots", got=outs.shape, **info)
    mon.need(bool(np.all((outs >= 0) & (outs < n))), "pivot out of range", got=outs[:5], **info)
    mon.sample(pivots=outs[:4], **info)
    noise = (1e-6 if case["x64"] else 2e-2) * scale
    cache = {}

    def res_of(prefix):
        key = frozenset(prefix)
        if key not in cache:
            cache[key] = residual(gram, sorted(key))
        return cache[key]

    ok_run = np.ones(runs, dtype=bool)  # still judged: residual never noise so far
    for step in range(size):
        p = np.zeros((runs, n))
        judged = ok_run.copy()
        for i in range(runs):
            prev = [int(v) for v in outs[i, :step]]
            if unique and outs[i, step] in prev:
                mon.need(False, "repeated pivot", out=outs[i], **info)
            if not ok_run[i]:
                continue
            res = res_of(prev)
            free = np.ones(n, dtype=bool)
            free[prev] = False
            if exact and not np.any(res > 0):
                if not free.any():
                    judged[i] = False
                    continue
                p[i] = free / free.sum()
            elif res.max() <= noise:
                judged[i] = ok_run[i] = False
                continue
            else:
                p[i] = res / res.sum()
        if not judged.any():
            break
        q, o = p[judged], outs[judged, step]
        rows = np.arange(len(q))
        got = q[rows, o]
        floor = 0.0 if exact else noise / (n * scale)
        mon.check(bool(np.all(got > 0) if exact else np.all(got + floor > 0)), "drew a row of zero residual", step=step, **info)
        hit = np.zeros_like(q)
        hit[rows, o] = 1
        diff = (hit - q).sum(axis=0)
        var = (q * (1 - q)).sum(axis=0)
        slack = (1e-6 if case["x64"] else 1e-2) * len(q) if not exact else 0.0
        lim = 6 * np.sqrt(var) + 4 + slack
        mon.check(
            bool(np.all(np.abs(diff) <= lim)), "pivots do not follow the residual diagonal", step=step,
            expected=q.sum(axis=0), observed=hit.sum(axis=0), limit=lim, runs=len(q), **info,
        )  # fmt: skip
        mon.margins["law"] = max(mon.margins.get("law", 0), float(np.max(np.abs(diff) / lim)))
        mon.sig(kind, spec[0], n, size, step, unique, sorted({tuple(v) for v in outs[:40, : step + 1].tolist()})[:3])
    # returned state
    mon.need(states.shape == (runs, n), "state has one residual per row", got=states.shape, **info)
    for i in range(min(runs, 60)):
        pre = [int(v) for v in outs[i]]
        levels = [res_of(pre[:t])[pre[t]] for t in range(size)]
        if min(levels) <= 30 * noise:
            continue
        want = res_of(pre)
        amp = (scale / min(levels)) ** 1.5
        mon.check(bool(np.all(states[i] >= 0)), "residual diagonal is non-negative", got=states[i], pivots=pre, **info)
        mon.close(
            states[i], want, "state is the final residual diagonal",
            atol=(1e-12 if case["x64"] else 2e-5) * scale * min(amp, 1e4), pivots=pre, **info,
        )  # fmt: skip
