"""KernelThinning halves fairly, picks its best candidate and never loses to it."""

import math

import numpy as np

from cxmon import gen, greedy, lib, ref
from cxmon.law import Law

RULE = (
    "a case records the halves of thousands of keys and tests every pair's assignment against the kernel-halving swap "
    "probability recomputed in float64 from the run's own history; or records the recursive partition, the choice among "
    "candidates, and the reduced coresubset and checks them against float64 MMDs; non-trivial: swap probabilities strictly "
    "between 0 and 1, candidates of different MMD; distinct: by kernel, sizes, delta, indices"
)
ASSUMPTIONS = [
    "pairs of coincident points (kernel distance zero) may be split either way",
    "MMD comparisons of reduce use translation-invariant kernels and positive weights",
]
FAMS = ["se", "pcimq", "rq", "mat", "lap", "exp", "lin", "comp"]
TI = ["se", "pcimq", "rq", "mat", "lap", "exp", "ticomp"]


def cases(tier, seed, rnd):
    r = gen.rng("C10", seed, rnd)
    n = 28 if tier == "quick" else 100
    kinds = ["half", "reduce", "half", "choose", "recursive", "multiple", "half"]
    for i in range(n):
        yield {"kind": kinds[i % 7], "x64": i % 5 != 3, "seed": gen.seed(r), "cost": 1 if i % 7 in (0, 2, 6) else 2}


def delta_of(r, n):
    return float(r.choice([0.5, 0.1, 0.9, 1.0 / (n * 3), 1e-4]))


def make(r, mon, spec_k, spec_s, size, delta):
    return mon.call(
        "KernelThinning", lib.KernelThinning, coreset_size=size, kernel=ref.build(spec_k), random_key=lib.jr.key(gen.seed(r)),
        delta=delta, sqrt_kernel=ref.build(spec_s),
    )  # fmt: skip


def run(case, mon):
    r = gen.rng(case["seed"])
    {"half": half, "recursive": recursive, "choose": choose, "reduce": reduce, "multiple": reduce}[case["kind"]](case, mon, r)


def half(case, mon, r):
    n = 2 * int(r.integers(1, 9))
    d = int(r.integers(1, 4))
    x = gen.points(r, n, d, str(r.choice(["normal", "clusters", "outlier", "shift", "dups"])))
    if r.integers(4) == 0:  # near-coincident pairs: strongly informative history
        k = n // 2
        x[1 : 2 * k : 2] = x[0 : 2 * k : 2] + gen.f32(0.3 * r.normal(size=(k, d)))
    spec = gen.kernel(r, FAMS[int(r.integers(len(FAMS)))], gen.scale_of(x))
    kern = ref.ref(spec)
    delta = delta_of(r, n)
    solver = make(r, mon, ["se", 1.0, 1.0], spec, max(1, n // 2), delta)
    w = gen.weights(r, n, str(r.choice(["none", "rand"])))
    ds = greedy.to_data(x, w)
    runs = 4000
    pairs = n // 2

    def one(key):
        a, b = lib.eqx.tree_at(lambda s: s.random_key, solver, key).kt_half(ds)
        return a.unweighted_indices, b.unweighted_indices

    keys = lib.jr.split(lib.jr.key(gen.seed(r)), runs)
    first, second = mon.call("kt_half", lib.jax.jit(lib.jax.vmap(one)), keys)
    first, second = np.asarray(first), np.asarray(second)
    info = {"spec": spec, "x": x, "delta": delta}
    mon.need(first.shape == (runs, pairs) and second.shape == (runs, pairs), "halves have half the rows each",
             got=[first.shape, second.shape], n=n)  # fmt: skip
    lo = 2 * np.arange(pairs)
    both = np.sort(np.stack([first, second], axis=-1), axis=-1)
    good = (both[:, :, 0] == lo) & (both[:, :, 1] == lo + 1)
    mon.need(bool(good.all()), "each half gets exactly one point of every consecutive pair",
             first=first[np.argmax(~good.all(axis=1))], second=second[np.argmax(~good.all(axis=1))], **info)  # fmt: skip
    gram = kern.k(x, x)
    scale = float(np.max(np.abs(gram)))
    swapped = (first == lo + 1).astype(int)
    mon.sample(first=first[:3], second=second[:3], **info)
    law = Law(mon, "kt_half", r, info)
    sigma2 = 0.0
    rows = np.arange(runs)
    eps = 1e-9 if case["x64"] else 3e-3
    for i in range(pairs):
        p1, p2 = 2 * i, 2 * i + 1
        b2 = gram[p1, p1] + gram[p2, p2] - 2 * gram[p1, p2]
        if b2 <= (1e-12 if case["x64"] else 1e-4) * scale:
            law.prev = None
            if case["x64"] and b2 <= 1e-15 * scale:
                continue  # indistinguishable points
            return
        b = math.sqrt(b2)
        a = max(b * math.sqrt(sigma2) * math.sqrt(2 * math.log(2 / delta)), b2)
        col = gram[:, p1] - gram[:, p2]
        alpha = np.full(runs, col[: 2 * i].sum())
        if i:
            alpha = alpha - 2 * col[first[:, :i]].sum(axis=1)
        q = np.clip(0.5 * (1 - alpha / a), 0, 1)
        law.step(np.stack([1 - q, q], axis=1), swapped[:, i], i, slack=eps)
        if np.any((q > 0.01) & (q < 0.99)):
            mon.sig("half", spec[0], n, i, delta, np.round(np.unique(q)[:4], 3))
        sure = (q < 1e-7) & (swapped[:, i] == 1) | (q > 1 - 1e-7) & (swapped[:, i] == 0)
        if case["x64"]:
            mon.check(not sure.any(), "a certain assignment was not made", step=i, first=first[np.argmax(sure)], **info)
        sigma2 = sigma2 + max(b2 * (1 + (b2 - 2 * a) * sigma2 / a**2), 0)
    del rows


def partition_ok(mon, parts, n_sub, rows, n, label, info):
    idx = [np.asarray(c.unweighted_indices).ravel() for c in parts]
    mon.need(len(idx) == n_sub, label + ": number of index sets", got=len(idx), want=n_sub, **info)
    want = rows // n_sub
    mon.need(all(len(i) == want for i in idx), label + ": sizes of the index sets", got=[len(i) for i in idx], want=want, **info)
    allv = np.sort(np.concatenate(idx))
    mon.need(
        bool(np.all((allv >= 0) & (allv < rows)) and len(set(allv.tolist())) == len(allv)),
        label + ": index sets do not partition the rows", got=idx, **info,
    )  # fmt: skip
    return idx


def recursive(case, mon, r):
    m = int(r.integers(0, 4))
    size = int(r.integers(1, 5))
    extra = int(r.integers(0, size * 2**m))
    rows = size * 2**m
    n = rows + extra
    d = int(r.integers(1, 3))
    x = gen.points(r, n, d, str(r.choice(["normal", "dups"])))
    spec = gen.kernel(r, "se", gen.scale_of(x))
    sup = bool(r.integers(3) == 0)
    y = gen.points(r, n, 1) if sup else None
    ds = greedy.to_data(x, None, y)
    solver = make(r, mon, spec, spec, size, delta_of(r, n))
    info = {"spec": spec, "x": x, "m": m, "size": size}
    for _ in range(3):
        s = lib.eqx.tree_at(lambda s: s.random_key, solver, lib.jr.key(gen.seed(r)))
        parts = mon.call("kt_half_recursive", s.kt_half_recursive, ds[:rows], m, ds)
        idx = partition_ok(mon, parts, 2**m, rows, n, "kt_half_recursive", info)
        for c, i in zip(parts, idx):
            got = np.asarray(c.points.data, dtype=float)
            mon.check(got.shape == (size, d) and np.array_equal(got, x[i]), "points of an index set are its rows", got=got, want=x[i])
            if sup:
                mon.check(
                    np.array_equal(np.asarray(c.points.supervision, dtype=float), y[i]), "supervision of an index set is its rows'"
                )
        mon.sig("recursive", m, size, n, [i.tolist() for i in idx][:2])
    mon.sample(index_sets=idx, **info)


def choose(case, mon, r):
    n = int(r.integers(4, 20))
    size = int(r.integers(1, n + 1))
    d = int(r.integers(1, 3))
    spec = gen.kernel(r, FAMS[int(r.integers(len(FAMS)))], 1.0)
    kern = ref.ref(spec)
    solver = make(r, mon, spec, spec, size, 0.1)
    n_cand = int(r.integers(1, 7))
    fn = lib.eqx.filter_jit(lambda idx, ds: solver.kt_choose([lib.Coresubset(lib.Data(i), ds) for i in idx], ds))
    for rep in range(6):
        x = gen.points(r, n, d, str(r.choice(["normal", "clusters", "dups"])))
        w = gen.weights(r, n, ["none", "rand", "skew"][int(r.integers(3))])
        w = np.ones(n) if w is None else w
        ds = greedy.to_data(x, w)
        cands = [r.permutation(n)[:size] for _ in range(n_cand)]
        jc = [lib.jnp.asarray(c, dtype=lib.jnp.int32) for c in cands]
        got = np.asarray(mon.call("kt_choose", fn, jc, ds)).ravel()
        vals = [ref.mmd2(kern, x, x[c], w, None) for c in cands]
        tol = (1e-11 if case["x64"] else 3e-5) * greedy.objective_scale(kern, x)
        info = {"spec": spec, "x": x, "w": w, "candidates": cands, "mmd2": vals}
        match = [i for i, c in enumerate(cands) if np.array_equal(c, got)]
        mon.need(bool(match), "kt_choose returns one of the candidates", got=got, **info)
        mon.check(min(vals[i] for i in match) <= min(vals) + tol, "kt_choose returns a candidate of least MMD", got=got, **info)
        if max(vals) - min(vals) > 10 * tol:
            mon.sig("choose", spec[0], n, size, got.tolist())
            mon.sample(got=got, **info)


def reduce(case, mon, r):
    n = int(r.choice([1, 2, 5, 8, 11, 16, 23, 32]))
    size = int(r.integers(1, n + 1)) if n < 9 else int(r.integers(2, n // 2 + 2))
    if case["kind"] == "multiple":  # n an exact power-of-two multiple of the size
        size = int(r.choice([3, 5, 6, 7, 7, 13, 13, 14, 14]))
        n = size * 2 ** (2 if size == 7 else 1)
    d = int(r.integers(1, 3))
    x0 = gen.points(r, n, d)
    spec = gen.kernel(r, TI[int(r.integers(len(TI)))], gen.scale_of(x0))
    spec_s = gen.kernel(r, "se", gen.scale_of(x0) / 2)
    kern = ref.ref(spec)
    delta = delta_of(r, n)
    solver = make(r, mon, spec, spec_s, size, delta)
    wk = str(r.choice(["none", "rand", "skew"]))
    m = int(math.floor(math.log2(n / size) + 1e-12))
    rows = size * 2**m

    def with_key(key):
        return lib.eqx.tree_at(lambda s: s.random_key, solver, key)

    f_red = lib.eqx.filter_jit(lambda key, ds: with_key(key).reduce(ds)[0])
    f_cand = lib.eqx.filter_jit(
        lambda key, ds: (with_key(key).kt_half_recursive(ds[:rows], m, ds), with_key(key).get_baseline_coreset(ds, size))
    )
    tol = (2e-11 if case["x64"] else 6e-5) * greedy.objective_scale(kern, x0)
    for rep in range(5):
        x = gen.points(r, n, d, str(r.choice(["normal", "clusters", "outlier", "dups"])))
        w = gen.weights(r, n, wk)
        w = np.ones(n) if w is None else w
        ds = greedy.to_data(x, w)
        key = lib.jr.key(gen.seed(r))
        info = {"spec": spec, "sqrt": spec_s, "x": x, "w": w, "size": size, "delta": delta}
        cs = mon.call("reduce", f_red, key, ds)
        out = greedy.indices(mon, cs, n, size, "reduce")
        mon.check(len(set(out.tolist())) == size, "reduced indices are distinct", out=out, **info)
        parts, base = mon.call("candidates", f_cand, key, ds)
        cands = partition_ok(mon, parts, 2**m, rows, n, "kt_half_recursive", info)
        b = greedy.indices(mon, base, n, size, "baseline")
        cands = cands + [b]
        mon.check(len(set(b.tolist())) == size, "baseline indices are distinct", out=b, **info)
        vals = [ref.mmd2(kern, x, x[c], w, None) for c in cands]
        val = ref.mmd2(kern, x, x[out], w, None)
        mon.check(val <= min(vals) + tol * 4, "MMD is not above any candidate's", got=val, candidates=vals, out=out, **info)
        near = [c for c, v in zip(cands, vals) if v <= min(vals) + tol]
        ok = False
        for c in near:
            tr = greedy.herding(kern, x, w, [int(i) for i in c], out, True)
            ok = ok or (tr.bad is None and tr.regret <= tol)
        mon.check(ok, "reduced coresubset is the refined best candidate", out=out, best=near, **info)
        mon.sig("reduce", spec[0], n, size, m, out.tolist())
        if rep == 0:
            mon.sample(out=out, mmd2=val, candidates=vals, **info)
