"""Padding-invariant solvers ignore zero-weighted data."""

import numpy as np

from cxmon import gen, greedy, lib, ref
from cxmon.props.c07 import Setting

RULE = (
    "a case inserts zero-weighted rows (random, far, near the mean, copies of good rows, at the front, middle or end) "
    "into a dataset and runs the real solver on it: no inserted row may be chosen and the trace, mapped back, must be "
    "the greedy one on the original rows (equal to the unpadded run's where no tie is within 1e-9); the probabilistic "
    "solver's draws over many keys must follow the unpadded softmax law; non-trivial: at least one inserted row has a "
    "better objective than the chosen one or lies amid the data; distinct: by solver, placement, values, sizes, trace"
)
ASSUMPTIONS = [
    "at least coreset_size positively weighted rows",
    "laws are tested to six standard errors over the recorded draws",
]
FAMS = ["se", "pcimq", "rq", "mat", "exp", "lap", "lin", "poly", "ticomp"]
PLACE = ["front", "back", "mixed"]
VALUES = ["zero", "far", "near", "copies", "best", "noise", "huge"]


def cases(tier, seed, rnd):
    r = gen.rng("C04", seed, rnd)
    n = 24 if tier == "quick" else 90
    for i in range(n):
        yield {"kind": ["herding", "stein", "herding", "stein", "prob", "stein"][i % 6], "x64": i % 6 != 2,
               "seed": gen.seed(r), "cost": 3 if i % 6 in (1, 3, 5) else 1}  # fmt: skip


def pad(r, x, w, k, place, values, kern):
    """Insert k zero-weighted rows; returns rows, weights and the original index of each row (or -1)."""
    n, d = x.shape
    a = ref.norm_weights(w, n)
    if values == "zero":
        z = np.zeros((k, d))
    elif values == "far":
        z = 100.0 + 10 * r.normal(size=(k, d))
    elif values == "huge":
        z = 1e6 * np.sign(r.normal(size=(k, d)))
    elif values == "near":
        z = a @ x + 0.01 * r.normal(size=(k, d))
    elif values == "copies":
        z = x[r.integers(0, n, size=k)]
    elif values == "best":
        cand = np.concatenate([x, a @ x + r.normal(size=(60, d)) * x.std(axis=0)])
        z = cand[np.argsort(-(kern.k(cand, x) @ a))[:k]]
    else:
        z = x.mean(axis=0) + r.normal(size=(k, d)) * (x.std(axis=0) + 0.1)
    z = gen.f32(z)
    if place == "front":
        order = np.concatenate([n + np.arange(k), np.arange(n)])
    elif place == "back":
        order = np.arange(n + k)
    else:
        order = np.concatenate([np.sort(r.permutation(n + k - 1)[: n - 1]), []]).astype(int)  # positions of rows
        pos = np.sort(r.permutation(n + k)[:n])
        order = np.empty(n + k, dtype=int)
        rest = np.setdiff1d(np.arange(n + k), pos)
        order[pos] = np.arange(n)
        order[rest] = n + np.arange(k)
    xs = np.concatenate([x, z])[order]
    base = np.ones(n) if w is None else np.broadcast_to(np.asarray(w, float), n)
    ws = np.concatenate([base, np.zeros(k)])[order]
    return xs, ws, np.where(order < n, order, -1)


def run(case, mon):
    r = gen.rng(case["seed"])
    {"herding": det, "stein": det, "prob": prob}[case["kind"]](case, mon, r)


def det(case, mon, r):
    kind = case["kind"]
    d = int(r.integers(1, 4))
    n = int(r.choice([5, 8, 13, 21]))
    size = int(r.integers(1, n + 1)) if r.integers(4) else n
    unique = bool(r.integers(3) > 0)
    k = int(r.choice([1, 2, 5, 11]))
    wk = str(r.choice(["none", "rand", "int", "skew" if kind == "herding" else "rand"]))
    x0 = gen.points(r, n, d)
    if kind == "herding":
        spec = gen.kernel(r, FAMS[int(r.integers(len(FAMS)))], gen.scale_of(x0))
        kern = ref.ref(spec)
        bs = greedy.block(r, n + k)
        un = greedy.unroll(r, bs, n + k)
        solver = lib.KernelHerding(coreset_size=size, kernel=ref.build(spec), unique=unique, block_size=bs, unroll=un)
        info0 = {"spec": spec, "size": size, "unique": unique, "block_size": bs, "unroll": un}
    else:
        source = str(r.choice(["default", "default", "kdm", "stein"]))
        st = Setting(r, source, n + k, d, gen.scale_of(x0), mon, size, unique)
        spec, kern, solver, info0 = st.spec, st.base, st.solver, st.info()
    jpad = lib.eqx.filter_jit(solver.reduce)
    jref = lib.eqx.filter_jit(solver.refine)
    for rep in range(5):
        x = gen.points(r, n, d, str(r.choice(["normal", "clusters", "shift"])))
        w = gen.weights(r, n, wk)
        place, values = str(r.choice(PLACE)), str(r.choice(VALUES))
        if values == "huge" and spec[0] in ("lin", "poly", "scomp", "ticomp", "comp") or values == "huge" and not case["x64"]:
            values = "noise"
        xs, ws, back = pad(r, x, w, k, place, values, kern)
        info = {"x": xs, "w": ws, "place": place, "values": values, **info0}
        if kind == "herding":
            tol = greedy.TOL[case["x64"]] * greedy.objective_scale(kern, x)
            sharp = 100 * tol
            if spec[0] in ("lin", "poly"):  # the padded Gramian's magnitude governs rounding
                tol = max(tol, greedy.TOL[case["x64"]] * greedy.objective_scale(kern, xs))
        else:
            terms = st.terms(x, w)
            tol = (1e-9 if case["x64"] else 5e-4) * st.scale(x, w, terms)
            sharp = 10 * tol

        def judge(label, coreset, init):
            raw = np.asarray(coreset.unweighted_indices)
            mon.need(raw.shape == (size,), label + ": wrong size", got=raw.shape)
            mon.need(bool(np.all((raw >= 0) & (raw < n + k))), label + ": index out of range", got=raw, **info)
            out = back[raw]
            mon.need(bool(np.all(out >= 0)), label + ": chose a zero-weighted row", got=raw, rows=xs[raw], **info)
            slots = greedy.init_slots(init, size)
            if kind == "herding":
                tr = greedy.herding(kern, x, w, slots, out, unique)
            else:
                tr = greedy.stein(terms[0], x, w, slots, out, unique, *terms[1:])
            mon.check(
                tr.bad is None and tr.regret <= tol, label + ": padding changed the greedy choice",
                out=out, bad=tr.bad, regret=tr.regret, tol=tol, **info,
            )  # fmt: skip
            mon.sig(kind, label, place, values, k, spec[0], n, size, out.tolist()[:10])
            return out, tr

        padded = greedy.to_data(xs, ws)
        got, _ = mon.call(kind + " reduce", jpad if rep or kind == "stein" else solver.reduce, padded)
        out, tr = judge("reduce", got, [])
        if rep < 2 and (kind == "herding" or case["seed"] % 3 == 0):
            plain, _ = mon.call(kind + " reduce", jpad, greedy.to_data(x, w))
            want = greedy.indices(mon, plain, n, size, "unpadded reduce")
            if tr.gap > sharp:
                mon.check(np.array_equal(out, want), "selection differs from the unpadded one", got=out, want=want, **info)
            mon.sample(selected=out, unpadded=want, **info)
        if rep >= 2:
            fwd = np.flatnonzero(back >= 0)
            n_init = int(r.integers(1, size + 1)) if rep == 2 and kind == "herding" else size
            idx = r.permutation(n)[:n_init]
            init = lib.Coresubset(lib.Data(lib.jnp.asarray(fwd[idx], dtype=lib.jnp.int32)), padded)
            got, _ = mon.call(kind + " refine", jref, init)
            judge("refine", got, [int(i) for i in idx])


def prob(case, mon, r):
    """Probabilistic herding: law of the draws with padding is the law without."""
    jax = lib.jax
    d, n = int(r.integers(1, 3)), int(r.choice([4, 6, 9]))
    size = int(r.integers(1, n))
    unique = bool(r.integers(3) > 0)
    k = int(r.choice([1, 3, 6]))
    x = gen.points(r, n, d)
    w = gen.weights(r, n, str(r.choice(["none", "rand"])))
    spec = gen.kernel(r, str(r.choice(["se", "rq", "lap", "lin"])), gen.scale_of(x))
    kern = ref.ref(spec)
    place, values = str(r.choice(PLACE)), str(r.choice(VALUES[:-1]))
    xs, ws, back = pad(r, x, w, k, place, values, kern)
    temp = float(r.choice([0.02, 0.1, 0.5])) * greedy.objective_scale(kern, x)
    padded = greedy.to_data(xs, ws)
    solver = lib.KernelHerding(
        coreset_size=size, kernel=ref.build(spec), unique=unique, probabilistic=True, temperature=temp
    )
    info = {"spec": spec, "x": xs, "w": ws, "place": place, "values": values, "size": size, "temperature": temp}

    def one(key):
        return lib.eqx.tree_at(lambda s: s.random_key, solver, key).reduce(padded)[0].unweighted_indices

    keys = lib.jr.split(lib.jr.key(gen.seed(r)), 3000)
    raws = np.asarray(mon.call("probabilistic reduce", jax.jit(jax.vmap(one)), keys))
    mon.need(raws.shape == (3000, size), "wrong size", got=raws.shape)
    mon.need(bool(np.all((raws >= 0) & (raws < n + k))), "index out of range", got=raws, **info)
    outs = back[raws]
    mon.need(bool(np.all(outs >= 0)), "drew a zero-weighted row", got=raws[np.any(outs < 0, axis=1)][:3], **info)
    law_test(mon, kern, x, w, outs, unique, temp, info)
    mon.sample(first=outs[:5], **info)


def law_test(mon, kern, x, w, outs, unique, temp, info, init=None):
    """Martingale test: at each step and row, sum of (1{chosen} - p) over runs within 6 sigma."""
    n = len(x)
    a = ref.norm_weights(w, n)
    gram = kern.k(x, x)
    mean = gram @ a
    runs, size = outs.shape
    slots = [None] * size if init is None else [int(i) for i in init]
    for step in range(size):
        later = [m for m in slots[step + 1 :] if m is not None]
        counts = np.zeros((runs, n))
        rows = np.arange(runs)
        for j in range(step):
            counts[rows, outs[:, j]] += 1
        for m in later:
            counts[:, m] += 1
        t = counts.sum(axis=1) + 1
        obj = mean[None] - (counts @ gram.T) / t[:, None]
        ok = np.broadcast_to(a > 0, (runs, n)).copy()
        if unique:
            ok &= counts == 0
        logit = np.where(ok, obj / temp, -np.inf)
        p = np.exp(logit - logit.max(axis=1, keepdims=True))
        p /= p.sum(axis=1, keepdims=True)
        hit = np.zeros((runs, n))
        hit[rows, outs[:, step]] = 1
        bad = p[rows, outs[:, step]] <= 0
        mon.need(not bad.any(), "drew an impossible row", step=step, out=outs[np.argmax(bad)], **info)
        diff = (hit - p).sum(axis=0)
        var = (p * (1 - p)).sum(axis=0)
        z = diff / np.sqrt(var + 1.0)
        # +4: discreteness of very rare events
        lim = 6 * np.sqrt(var) + 4
        mon.check(
            bool(np.all(np.abs(diff) <= lim)), "draws do not follow the softmax law", step=step,
            z=z, expected=p.sum(axis=0), observed=hit.sum(axis=0), **info,
        )  # fmt: skip
        mon.sig("law", step, np.round(p.mean(axis=0), 2))
