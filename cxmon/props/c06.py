"""Herding refinement never worsens the MMD; iteration is repeated refinement."""

import numpy as np

from cxmon import gen, greedy, lib, ref

RULE = (
    "a case runs a history of refines (and reduce_iterative for several iteration counts) of the real solver, "
    "and observes the float64 weighted MMD after every refine and the index sets of the histories; non-trivial: a "
    "refine that changed the coresubset; distinct: by kernel, sizes, weights, initialisation, indices"
)
ASSUMPTIONS = [
    "translation-invariant kernels, uniformly weighted full-size initial coresubsets of positively weighted rows "
    "(without repeats if unique)",
    "equal histories are demanded exactly where every choice was clear of the runner-up by 1e-9 of the kernel scale, "
    "and as greedy refinements otherwise",
]
FAMS = ["se", "pcimq", "rq", "mat", "exp", "lap", "ticomp", "per", "lper"]
GEOMS = ["normal", "clusters", "dups", "ints", "outlier", "shift", "line"]
INITS = ["random", "firstrows", "worst", "repeat", "herded"]


def cases(tier, seed, rnd):
    r = gen.rng("C06", seed, rnd)
    n = 24 if tier == "quick" else 140
    for i in range(n):
        yield {"kind": ["mmd", "iter"][i % 2], "x64": i % 6 != 5, "seed": gen.seed(r), "cost": 1}


def setup(r, case, mon):
    n = int(r.choice([2, 4, 7, 12, 20, 40]))
    d = int(r.integers(1, 4))
    wk = str(r.choice(["none", "rand", "zeros", "skew", "int"]))
    n_pos = n - max(1, n // 4) if wk == "zeros" else n
    size = int(r.integers(1, max(2, min(n_pos, 12) + 1)))
    size = min(size, n_pos)
    unique = bool(r.integers(2))
    x0 = gen.points(r, n, d, str(r.choice(GEOMS)))
    spec = gen.kernel(r, FAMS[int(r.integers(len(FAMS)))], gen.scale_of(x0))
    bs = greedy.block(r, n)
    un = greedy.unroll(r, bs, n)
    solver = mon.call(
        "KernelHerding", lib.KernelHerding, coreset_size=size, kernel=ref.build(spec), unique=unique,
        block_size=bs, unroll=un,
    )  # fmt: skip
    return n, d, wk, size, unique, x0, spec, bs, un, solver


def initial(r, kind, x, w, size, unique, kern):
    n = len(x)
    a = ref.norm_weights(w, n)
    pos = np.flatnonzero(a > 0)
    if kind == "repeat" and not unique:
        return np.full(size, pos[int(r.integers(len(pos)))])
    if kind == "firstrows":
        return pos[:size]
    if kind == "worst":
        return pos[np.argsort(kern.k(x[pos], x) @ a)[:size]]
    if unique:
        return r.permutation(pos)[:size]
    return pos[r.integers(0, len(pos), size=size)]


def run(case, mon):
    r = gen.rng(case["seed"])
    n, d, wk, size, unique, x0, spec, bs, un, solver = setup(r, case, mon)
    kern = ref.ref(spec)
    jnp = lib.jnp
    tol_rel = greedy.TOL[case["x64"]]
    jrefine = lib.eqx.filter_jit(lambda init: solver.refine(init))
    counts = [1, 2, 3, int(r.integers(4, 8))]
    jiter = {
        t: lib.eqx.filter_jit(lambda ds, t=t: solver.reduce_iterative(ds, num_iterations=t)) for t in counts
    }
    jreduce = lib.eqx.filter_jit(solver.reduce)
    for rep in range(4):
        x = x0 if rep == 0 else gen.points(r, n, d, str(r.choice(GEOMS)))
        w = gen.weights(r, n, wk, min_pos=size)
        ds = greedy.to_data(x, w)
        scale = greedy.objective_scale(kern, x)
        info = {"spec": spec, "x": x, "w": w, "size": size, "unique": unique, "block_size": bs}
        if case["kind"] == "mmd":
            kind = str(r.choice(INITS))
            idx = initial(r, kind, x, w, size, unique, kern)
            cs = lib.Coresubset(lib.Data(jnp.asarray(idx, dtype=jnp.int32)), ds)
            hist = [idx]
            vals = [ref.mmd2(kern, x, x[idx], w, None)]
            for step in range(7):
                cs, _state = mon.call("refine", jrefine if rep or step else solver.refine, cs)
                out = greedy.indices(mon, cs, n, size, "refine")
                vals.append(ref.mmd2(kern, x, x[out], w, None))
                # each of the `size` replacements may be off by one rounding of the objective
                tol = 4 * tol_rel * scale
                mon.check(
                    vals[-1] <= vals[-2] + tol, "refine increased the MMD", before=vals[-2], after=vals[-1],
                    tol=tol, init=hist[-1], out=out, initial=kind, **info,
                )  # fmt: skip
                changed = not np.array_equal(out, hist[-1])
                if changed:
                    mon.sig(spec[0], n, size, wk, kind, out.tolist())
                elif len(hist) >= 2 and not np.array_equal(hist[-1], hist[-2]):
                    mon.sig("fixpoint", spec[0], n, size)
                if len(hist) >= 2 and np.array_equal(hist[-1], hist[-2]):
                    mon.check(not changed, "a fixpoint was left by a further refine", at=hist[-1], out=out, **info)
                hist.append(out)
            if rep == 0:
                mon.sample(init=idx, mmd2=vals, **info)
        else:
            res = {}
            for t in counts:
                got, _ = mon.call("reduce_iterative", jiter[t], ds)
                res[t] = greedy.indices(mon, got, n, size, "reduce_iterative")
            cs, state = mon.call("reduce", jreduce, ds)
            cur = greedy.indices(mon, cs, n, size, "reduce")
            gap = greedy.herding(kern, x, w, [None] * size, cur, unique).gap
            tr = greedy.herding(kern, x, w, [None] * size, res[1], unique)
            mon.check(
                tr.bad is None and tr.regret <= tol_rel * scale, "reduce_iterative(1) is a herding reduction",
                out=res[1], regret=tr.regret, bad=tr.bad, **info,
            )  # fmt: skip
            chain = [cur]
            sharp = 1e-9 if case["x64"] else 1e-3
            for t in range(1, max(counts) + 1):
                if t > 1:
                    cs, _state = mon.call("refine", jrefine, cs)
                    cur = greedy.indices(mon, cs, n, size, "refine")
                    gap = min(gap, greedy.herding(kern, x, w, list(chain[-1]), cur, unique).gap)
                    chain.append(cur)
                if t in res and gap > sharp * scale:
                    mon.check(
                        np.array_equal(res[t], cur), "reduce_iterative(t) is reduce and t-1 refines", t=t,
                        got=res[t], want=cur, chain=chain, **info,
                    )  # fmt: skip
                    mon.sig("iter", spec[0], n, size, t, cur.tolist())
            for t in (2, 3):
                tr = greedy.herding(kern, x, w, list(res[t - 1]), res[t], unique)
                mon.check(
                    tr.bad is None and tr.regret <= tol_rel * scale, "iteration t refines iteration t-1",
                    t=t, prev=res[t - 1], out=res[t], regret=tr.regret, bad=tr.bad, **info,
                )  # fmt: skip
            if rep == 0:
                mon.sample(iterations={str(k): v for k, v in res.items()}, **info)
