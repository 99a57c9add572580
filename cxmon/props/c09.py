"""GreedyKernelPoints adds the row with the least kernel ridge loss."""

import itertools
import math

import numpy as np

from cxmon import gen, greedy, lib, ref

RULE = (
    "a case runs reduce/refine of the real solver and replays the returned indices step by step, recomputing the kernel "
    "ridge loss of every admissible row in float64; with sampled candidate or loss batches the indices over thousands of "
    "keys are tested against the law obtained by enumerating the batches (six standard errors); non-trivial: more than one "
    "admissible row; distinct: by kernel, sizes, batches, solver, trace"
)
ASSUMPTIONS = [
    "one response, positive |regularisation_parameter| of at least 1e-4 of the kernel scale",
    "a choice within the conditioning-scaled rounding of the least loss counts as least",
    "an exhausted candidate batch (all candidates already selected) may be followed by any unselected row",
]
FAMS = ["se", "pcimq", "rq", "mat", "lap", "lin", "poly", "comp"]


def cases(tier, seed, rnd):
    r = gen.rng("C09", seed, rnd)
    n = 30 if tier == "quick" else 110
    kinds = ["full", "batchlaw", "full", "losslaw", "full", "bothlaw", "full", "refinelaw"]
    for i in range(n):
        yield {"kind": kinds[i % 8], "x64": i % 7 != 4 or kinds[i % 8] != "full", "seed": gen.seed(r), "cost": 1}


def losses(gram, y, members, slot, lam, cand=None, over=None):
    """Loss of putting each row into `slot`, given the other members (None: empty)."""
    n = len(y)
    over = slice(None) if over is None else over
    out = np.full(n, np.inf)
    others = [m for j, m in enumerate(members) if j != slot and m is not None]
    for c in range(n) if cand is None else cand:
        s = others + [int(c)]
        coef = np.linalg.solve(gram[np.ix_(s, s)] + lam * np.eye(len(s)), y[s])
        out[c] = np.sum((y[over] - gram[over][:, s] @ coef) ** 2)
    return out


def make(r, case, n, d, size, mon, **kw):
    x64 = case["x64"]
    x = gen.points(r, n, d)
    spec = gen.kernel(r, FAMS[int(r.integers(len(FAMS)))], gen.scale_of(x))
    kern = ref.ref(spec)
    scale = greedy.objective_scale(kern, x)
    lam = float(np.float32(scale * float(r.choice([1e-4, 1e-2, 0.3] if x64 else [0.05, 0.3]))))
    signed = lam if r.integers(5) else -lam
    which = int(r.integers(4))
    if which == 0:
        ls = lib.MinimalEuclideanNormSolver()
    elif which == 1 and x64 and case["kind"] == "full":
        ls = lib.RandomisedEigendecompositionSolver(random_key=lib.jr.key(gen.seed(r)), oversampling_parameter=25, power_iterations=2)
    else:
        ls = None
    unique = bool(r.integers(3) > 0)
    key = lib.jr.key(gen.seed(r))
    solver = mon.call(
        "GreedyKernelPoints", lib.GreedyKernelPoints, coreset_size=size, random_key=key, feature_kernel=ref.build(spec),
        regularisation_parameter=signed, unique=unique, least_squares_solver=ls, **kw,
    )  # fmt: skip
    return x, spec, kern, lam, unique, solver, ["min-norm", "randomised", "default", "default"][which]


def response(r, x):
    f = np.sin(x @ r.normal(size=x.shape[1])) + 0.3 * r.normal(size=len(x)) + r.normal()
    return gen.f32(f)


def run(case, mon):
    r = gen.rng(case["seed"])
    if case["kind"] == "full":
        full(case, mon, r)
    else:
        law(case, mon, r)


def full(case, mon, r):
    n = int(r.choice([2, 4, 7, 11, 16]))
    d = int(r.integers(1, 4))
    size = int(r.integers(1, min(n, 7) + 1))
    kw = {}
    if r.integers(3) == 0:
        kw["candidate_batch_size"] = n + int(r.integers(3))
    if r.integers(3) == 0:
        kw["loss_batch_size"] = n + int(r.integers(3))
    x0, spec, kern, lam, unique, solver, ls = make(r, case, n, d, size, mon, **kw)
    jreduce = lib.eqx.filter_jit(lambda ds, st: solver.reduce(ds, st))
    jrefine = lib.eqx.filter_jit(lambda cs, st: solver.refine(cs, st))
    n_init = int(r.integers(1, size + 1))
    for rep in range(4):
        x = x0 if rep == 0 else gen.points(r, n, d, str(r.choice(["normal", "clusters", "shift", "dups"])))
        y = response(r, x)
        gram = kern.k(x, x)
        top = np.linalg.norm(gram, 2)
        cond = (top + lam) / lam
        tol = (1e-12 if case["x64"] else 4e-5) * cond * size * (1 + np.sum(y**2))
        if not case["x64"] and spec[0] in ("lin", "poly"):
            tol *= 10
        ds = greedy.to_data(x, None, y[:, None])
        info = {"spec": spec, "x": x, "y": y, "lambda": lam, "size": size, "unique": unique, "ls": ls, **kw}

        def judge(label, cs, init):
            out = greedy.indices(mon, cs, n, size, label)
            members = greedy.init_slots(init, size)
            for i in range(size):
                others = [m for j, m in enumerate(members) if j != i and m is not None]
                loss = losses(gram, y, members, i, lam)
                ok = np.ones(n, dtype=bool)
                if unique:
                    ok[others] = False
                c = int(out[i])
                mon.check(ok[c], label + ": chose an already selected row", step=i, out=out, init=init, **info)
                best = np.min(loss[ok])
                mon.check(
                    loss[c] <= best + tol, label + ": not the least loss", step=i, chosen=c, loss=loss, best=best, tol=tol,
                    out=out, init=init, **info,
                )  # fmt: skip
                mon.margins[label] = max(mon.margins.get(label, 0), (loss[c] - best) / tol)
                members[i] = c
            if n > 1:
                mon.sig(label, spec[0], n, size, unique, ls, out.tolist())
            return out

        st = None
        cs, st = mon.call("reduce", solver.reduce if rep == 0 else jreduce, ds, None)
        out = judge("reduce", cs, [])
        if rep == 0:
            mon.sample(out=out, **info)
            again, _ = mon.call("reduce with state", solver.reduce, ds, st)
            judge("reduce with returned state", again, [])
        idx = r.permutation(n)[:size] if unique else r.integers(0, n, size=size)
        init = lib.Coresubset.build(lib.jnp.asarray(idx, dtype=lib.jnp.int32), ds)
        before = float(losses(gram, y, list(map(int, idx)), 0, lam, [int(idx[0])])[int(idx[0])])
        ref_cs, st2 = mon.call("refine", jrefine, init, st)
        out = judge("refine", ref_cs, [int(i) for i in idx])
        after = float(losses(gram, y, list(map(int, out)), 0, lam, [int(out[0])])[int(out[0])])
        mon.check(after <= before + size * tol, "refining increased the loss", before=before, after=after, init=idx, out=out, **info)
        if n_init < size and rep < 2:
            part = [int(i) for i in idx[:n_init]]
            init = lib.Coresubset.build(lib.jnp.asarray(part, dtype=lib.jnp.int32), ds)
            ref_cs, _ = mon.call("refine", jrefine, init, None)
            judge("refine of a smaller coresubset", ref_cs, part)


def pick_law(loss_full, ok, own, b, n, by_loss):
    """Law of the chosen row when b of n candidates are sampled (own: always a candidate).

    `by_loss` is a list of (probability, loss vector).  Returns (law, probability that no candidate is admissible).
    """
    law = np.zeros(n)
    none = 0.0
    for pr, loss in by_loss:
        order = [c for c in np.argsort(loss, kind="stable") if ok[c]]
        for rank, c in enumerate(order):
            # candidate c is chosen iff it is sampled (or own) and no better one is
            better = order[:rank]
            if own is not None and own in better:
                continue
            k = len(better)
            if own == c:
                q = math.comb(n - k, b) / math.comb(n, b) if n - k >= b else 0.0
            else:
                q = math.comb(n - k - 1, b - 1) / math.comb(n, b) if n - k - 1 >= b - 1 else 0.0
            law[c] += pr * q
        if own is None or not ok[own]:
            k = len(order)
            none += pr * (math.comb(n - k, b) / math.comb(n, b) if n - k >= b else 0.0)
    return law, none


def law(case, mon, r):
    kind = case["kind"]
    n = int(r.integers(4, 8))
    size = int(r.integers(1, 4))
    d = int(r.integers(1, 3))
    b = int(r.integers(1, n)) if kind in ("batchlaw", "bothlaw", "refinelaw") else n
    lb = int(r.integers(1, n)) if kind in ("losslaw", "bothlaw") else n
    kw = {}
    if b < n or r.integers(2):
        kw["candidate_batch_size"] = b
    if lb < n or r.integers(2):
        kw["loss_batch_size"] = lb
    x, spec, kern, lam, unique, solver, ls = make(r, case, n, d, size, mon, **kw)
    y = response(r, x)
    gram = kern.k(x, x)
    ds = greedy.to_data(x, None, y[:, None])
    runs = 3000
    keys = lib.jr.split(lib.jr.key(gen.seed(r)), runs)
    init = None
    if kind == "refinelaw":
        init = r.permutation(n)[:size]
        cs0 = lib.Coresubset.build(lib.jnp.asarray(init, dtype=lib.jnp.int32), ds)

    def one(key):
        s = lib.eqx.tree_at(lambda s: s.random_key, solver, key)
        cs, _ = s.reduce(ds) if init is None else s.refine(cs0)
        return cs.unweighted_indices

    outs = np.asarray(mon.call(kind, lib.jax.jit(lib.jax.vmap(one)), keys))
    info = {"spec": spec, "x": x, "y": y, "lambda": lam, "size": size, "unique": unique, "init": init, **kw}
    mon.need(outs.shape == (runs, size), "wrong size", got=outs.shape, **info)
    mon.need(bool(np.all((outs >= 0) & (outs < n))), "index out of range", got=outs[:5], **info)
    mon.sample(draws=outs[:5], **info)
    batches = list(itertools.combinations(range(n), lb))
    cache = {}

    def law_at(prefix, step):
        if prefix in cache:
            return cache[prefix]
        members = list(prefix) + ([int(v) for v in init[step:]] if init is not None else [None] * (size - step))
        own = members[step]
        others = [m for j, m in enumerate(members) if j != step and m is not None]
        ok = np.ones(n, dtype=bool)
        if unique:
            ok[others] = False
        by_loss = [
            (1 / len(batches), losses(gram, y, members, step, lam, over=list(bb))) for bb in batches
        ]
        # near ties make the law ambiguous
        tie = any(np.min(np.diff(np.sort(lo[ok])), initial=np.inf) < 1e-10 * (1 + np.sum(y**2)) for _, lo in by_loss)
        law_, none = pick_law(None, ok, own if b < n else None, b, n, by_loss)
        cache[prefix] = None if tie else (law_, none, ok)
        return cache[prefix]

    for step in range(size):
        exp, var, hit, tot = np.zeros(n), np.zeros(n), np.zeros(n), 0
        slack = 0.0
        for row in outs:
            pre = tuple(int(v) for v in row[:step])
            got = law_at(pre, step)
            if got is None:
                continue
            p, none, ok = got
            c = int(row[step])
            if not (p[c] > 0 or (none > 0 and ok[c])):
                mon.need(False, "chose a row no batch could give", step=step, out=row, law=p, **info)
            exp += p
            var += p * (1 - p)
            slack += none
            hit[c] += 1
            tot += 1
        if not tot:
            break
        lim = 6 * np.sqrt(var + slack) + 4
        low, high = exp - lim, exp + slack + lim
        mon.check(
            bool(np.all((hit >= low) & (hit <= high))), "choices do not follow the least loss over sampled batches",
            step=step, observed=hit, expected=exp, limit=lim, exhausted=slack, **info,
        )  # fmt: skip
        mon.sig(kind, spec[0], n, b, lb, size, step, np.round(exp / tot, 2))
