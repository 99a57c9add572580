"""KernelHerding makes the greedy herding choice at every step."""

import numpy as np

from cxmon import gen, greedy, lib, ref

RULE = (
    "a case fixes a kernel and solver settings, runs reduce/refine chains of the real solver on several "
    "datasets (eagerly once, then jitted) and replays every returned index trace step by step in float64: "
    "each chosen row must be admissible and within rounding of the best; non-trivial: coreset_size > 1 and "
    "two different rows chosen; distinct: by kernel, sizes, weights, settings and the trace itself"
)
ASSUMPTIONS = [
    "initial coresubsets are uniformly weighted (zero-weighted entries are padding) and no larger than coreset_size",
    "a choice within 2e-11 (float64) or 3e-5 (float32) of the kernel scale of the optimum counts as optimal",
]
FAMS = ["se", "pcimq", "rq", "mat", "exp", "lap", "lin", "poly", "per", "comp", "ticomp"]
GEOMS = ["normal", "normal", "dups", "clusters", "ints", "outlier", "line", "shift", "grid"]
WK = ["none", "rand", "zeros", "skew", "big", "int", "scalar"]


def cases(tier, seed, rnd):
    r = gen.rng("C05", seed, rnd)
    n = 32 if tier == "quick" else 160
    for i in range(n):
        yield {"kind": "large" if i % 24 == 5 else "chain", "x64": i % 5 != 4, "seed": gen.seed(r), "cost": 1}


def run(case, mon):
    r = gen.rng(case["seed"])
    jnp = lib.jnp
    big = case["kind"] == "large"
    n = int(r.integers(120, 300)) if big else int(r.choice([1, 2, 3, 5, 8, 13, 20, 32]))
    d = int(r.integers(1, 4))
    wk = str(r.choice(WK))
    # at least `size` positively weighted rows when unique
    unique = bool(r.integers(3) > 0)
    n_pos = n - max(1, n // 4) if wk == "zeros" and n > 1 else n
    size = int(r.integers(1, n_pos + 1)) if not big else int(r.integers(10, 60))
    if r.integers(5) == 0 and not big:
        size = n_pos
    geom = str(r.choice(GEOMS))
    x0 = gen.points(r, n, d, geom)
    spec = gen.kernel(r, FAMS[int(r.integers(len(FAMS)))], gen.scale_of(x0))
    kern = ref.ref(spec)
    bs = greedy.block(r, n)
    un = greedy.unroll(r, bs, n)
    sup = bool(r.integers(4) == 0)
    solver = mon.call(
        "KernelHerding", lib.KernelHerding, coreset_size=size, kernel=ref.build(spec), unique=unique,
        block_size=bs, unroll=un,
    )  # fmt: skip
    n_init = int(r.integers(1, size + 1)) if r.integers(2) else size
    init_w = [None, 0.25, "ones"][int(r.integers(3))]
    padded_init = bool(r.integers(4) == 0 and n_init < size)

    def make_init(ds, idx):
        ids = list(idx)
        if padded_init:
            ids = ids + [0] * (size - len(ids))
            iw = jnp.asarray([1.0] * len(idx) + [0.0] * (size - len(idx)))
        elif init_w is None:
            iw = None
        elif init_w == "ones":
            iw = jnp.ones(len(ids))
        else:
            iw = jnp.full(len(ids), init_w)
        return lib.Coresubset(lib.Data(jnp.asarray(ids, dtype=jnp.int32), iw), ds)

    def f_reduce(ds):
        return solver.reduce(ds)

    def f_refine(ds, idx):
        return solver.refine(make_init(ds, idx))

    def f_state(ds, state):
        return solver.reduce(ds, state)

    def f_refine_state(cs, state):
        return solver.refine(cs, state)

    jits = [lib.eqx.filter_jit(f) for f in (f_reduce, f_state, f_refine_state)]
    jrefine = lib.eqx.filter_jit(lambda ds, init: solver.refine(init))
    tol_rel = greedy.TOL[case["x64"]]
    reps = 2 if big else 5
    for rep in range(reps):
        x = x0 if rep == 0 else gen.points(r, n, d, str(r.choice(GEOMS)))
        w = gen.weights(r, n, wk, min_pos=size if unique else 1)
        y = gen.points(r, n, 1) if sup else None
        ds = greedy.to_data(x, w, y)
        tol = tol_rel * greedy.objective_scale(kern, x)
        info = {"spec": spec, "x": x, "w": w, "size": size, "unique": unique, "block_size": bs, "unroll": un}

        def judge(label, coreset, init):
            out = greedy.indices(mon, coreset, n, size, label)
            tr = greedy.herding(kern, x, w, greedy.init_slots(init, size), out, unique)
            mon.check(tr.bad is None, label + ": chose an inadmissible row", step=tr.bad, out=out, init=init, **info)
            mon.check(
                tr.regret <= tol, label + ": not the greedy choice", regret=tr.regret, tol=tol, out=out, init=init, **info
            )
            mon.margins[label] = max(mon.margins.get(label, 0), tr.regret / tol)
            if len(set(out.tolist())) > 1:
                mon.sig(label, spec[0], n, size, wk, str(bs), str(un), unique, out.tolist()[:12])
            return out, tr

        eager = rep == 0 and not big
        red = f_reduce if eager else jits[0]
        first, state = mon.call("reduce", red, ds)
        out, tr = judge("reduce", first, [])
        if eager:
            mon.sample(out=out, gap=tr.gap, **info)
        again, _ = mon.call("reduce with state", jits[1], ds, state)
        judge("reduce with returned state", again, [])
        idx = r.integers(0, n, size=n_init) if not unique else r.permutation(n)[:n_init]
        if unique and r.integers(6) == 0:
            idx = r.integers(0, n, size=n_init)  # repeats in the initial coresubset
        init = make_init(ds, idx)
        ref_fn = (lambda ds, init: solver.refine(init)) if eager else jrefine
        refined, st2 = mon.call("refine", ref_fn, ds, init)
        cur, _ = judge("refine", refined, [int(i) for i in idx])
        for step in range(2):
            prev = [int(i) for i in cur]
            refined, st2 = mon.call("refine chain", jits[2], refined, [state, st2][step])
            cur, tr = judge("refine of a refined coresubset", refined, prev)
