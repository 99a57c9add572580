"""Regularised least-squares solvers solve the regularised (block) system."""

import numpy as np

from cxmon import gen, lib

RULE = (
    "a case solves several systems of one shape (definite, indefinite, singular, block-padded, stacked) with one real solver and "
    "compares the result with the float64 (pseudo-)inverse applied to the targets; distinct: by solver, settings, system kind, n, m"
)
ASSUMPTIONS = [
    "arrays are symmetric; singular values lie clear of the threshold (rcond) that decides which of them count as zero",
    "the randomised solver samples at least as many directions as the rank of the regularised array",
]
KINDS = ["spd", "indefinite", "singular", "block", "negative", "kernel", "zero"]


def cases(tier, seed, rnd):
    r = gen.rng("C21", seed, rnd)
    for i in range(64 if tier == "quick" else 200):
        yield {
            "kind": ["minimal", "randomised", "stack", "decomposition"][(0, 1, 0, 1, 2, 1, 2, 3)[i % 8]], "x64": bool((i // 8) % 3), "seed": gen.seed(r),
            "cost": 1,
        }  # fmt: skip


def spectrum(r, n, rank, signs):
    s = np.exp(r.uniform(np.log(0.05), np.log(5), size=rank))
    if signs == "mixed":
        s *= r.choice([-1, 1], size=rank)
    elif signs == "neg":
        s *= -1
    q, _ = np.linalg.qr(r.normal(size=(n, n)))
    return (q[:, :rank] * s) @ q[:, :rank].T


def system(r, kind, n, m):
    """array, |lambda|, target, identity and the number of relevant rows."""
    lam = float(np.float32(r.choice([0.0, 0.01, 0.5])))
    ident = np.eye(n)
    rows = n
    if kind == "spd":
        a = spectrum(r, n, n, "pos")
    elif kind == "negative":
        a, lam = spectrum(r, n, n, "neg"), 0.0
    elif kind == "indefinite":
        a, lam = spectrum(r, n, n, "mixed"), 0.0
    elif kind == "singular":
        rank = int(r.integers(1, n + 1)) if n > 1 else 1
        a, lam = spectrum(r, n, rank, str(r.choice(["pos", "mixed"]))), 0.0
    elif kind == "kernel":
        x = gen.points(r, n, 2)
        a = np.exp(-0.5 * ((x[:, None] - x[None]) ** 2).sum(-1))
        lam = 0.1
    elif kind == "zero":
        a, lam = np.zeros((n, n)), 0.5
    else:
        rows = int(r.integers(1, n + 1))
        a = np.zeros((n, n))
        a[:rows, :rows] = spectrum(r, rows, rows, "pos")
        ident = np.diag((np.arange(n) < rows).astype(float))
    a = gen.f32((a + a.T) / 2)
    b = gen.f32(r.normal(size=(n, m)))
    if kind == "block":
        b[rows:] = 0
        if r.integers(2):
            b = ident.copy()
    return a, lam, b, ident, rows


def ill(r, n, m, rcond):
    """A badly conditioned array whose small eigenvalues lie clear of the threshold."""
    s = np.exp(r.uniform(np.log(1e-9), 0, size=n))
    s[0] = 1
    if n > 1:
        s[1] = 1e-9 * r.uniform(1, 3)
    cut = rcond if rcond not in (None, -1) else 1e-12
    s = np.where((s > cut / 3) & (s < 3 * cut), 5 * cut, s)
    q, _ = np.linalg.qr(r.normal(size=(n, n)))
    a = (q * (s * r.choice([1, 1, -1], size=n))) @ q.T
    return (a + a.T) / 2, r.normal(size=(n, m)), cut


def solution(a, lam, b, ident, rcond=1e-4):
    full = a + lam * ident
    return np.linalg.pinv(full, rcond=rcond, hermitian=True) @ b, full


def make(mon, case, r, n, kind):
    if kind == "minimal":
        kw = {"rcond": [None, None, -1, 1e-5, 0.2][int(r.integers(5))]}
        return mon.call("constructor", lib.MinimalEuclideanNormSolver, **kw), kw
    kw = {"oversampling_parameter": int(r.choice([n, n + 1, 25 if n <= 25 else n, n + 20])), "power_iterations": int(r.integers(0, 4))}
    kw["rcond"] = [None, 1e-5, -1, 0.2][int(r.integers(4))]
    return mon.call("constructor", lib.RandomisedEigendecompositionSolver, lib.jr.key(gen.seed(r)), **kw), kw


def run(case, mon):
    r = gen.rng(case["seed"])
    jnp, eqx = lib.jnp, lib.eqx
    n = int(r.choice([1, 2, 3, 6, 10, 17]))
    m = int(r.choice([1, 2, n, 5]))
    tol = 1e-11 if case["x64"] else 3e-5
    if case["kind"] == "decomposition":
        return decomposition(case, mon, r, tol)
    which = case["kind"] if case["kind"] != "stack" else str(r.choice(["minimal", "randomised"]))
    solver, kw = make(mon, case, r, n, which)
    if kw["rcond"] == 0.2 and case["kind"] == "stack":
        return
    info0 = {"solver": which, **kw}
    arr = lambda v: jnp.asarray(v, dtype=float)  # noqa: E731
    if case["kind"] == "stack":
        kind = str(r.choice(["spd", "indefinite", "block", "kernel"]))
        depth = int(r.integers(1, 5))
        sysn = [system(r, kind, n, m) for _ in range(depth)]
        lam, ident = sysn[0][1], sysn[0][3]
        target_m = sysn[0][2].shape[1]
        sysn = [s for s in sysn if s[2].shape[1] == target_m]
        sign = float(r.choice([-1, 1]))
        per = bool(r.integers(2)) or kind == "block"
        idents = [s[3] for s in sysn] if per else [ident] * len(sysn)
        shared = bool(r.integers(3) == 0)
        targets = [sysn[0][2]] * len(sysn) if shared else [s[2] for s in sysn]
        axes = (0, None, None if shared else 0, 0 if per else None)
        args = [
            arr(np.stack([s[0] for s in sysn])), sign * lam, arr(targets[0]) if shared else arr(np.stack(targets)),
            arr(np.stack(idents)) if per else arr(ident),
        ]  # fmt: skip
        extra = {} if axes == (0, None, 0, None) else {"in_axes": axes}
        got = np.asarray(mon.call("solve_stack", solver.solve_stack, *args, **extra), dtype=np.float64)
        info = {"kind": kind, "n": n, "axes": str(axes), "lam": sign * lam, **info0}
        mon.need(got.shape == (len(sysn), n, targets[0].shape[1]), "a solution for every system", got=got.shape, **info)
        for i, s in enumerate(sysn):
            want, full = solution(s[0], lam, targets[i], idents[i])
            scale = 1 + np.max(np.abs(want)) * np.linalg.cond(full + (np.eye(n) - np.diag(np.sign(np.diag(idents[i])))))
            mon.close(got[i], want, "each system of a stack is solved independently", rtol=tol, scale=scale, array=s[0], target=targets[i], **info)
        mon.sig("stack", which, kind, n, m, len(sysn), str(axes))
        mon.sample(**info)
        return
    solve = eqx.filter_jit(solver.solve)
    for rep in range(5):
        kind = KINDS[int(r.integers(len(KINDS)))]
        a, lam, b, ident, rows = system(r, kind, n, m)
        rc = 1e-4
        if case["x64"] and rep == 4:
            kind, lam, ident, rows = "ill", 0.0, np.eye(n), n
            a, b, rc = ill(r, n, m, kw["rcond"])
        sign = float(r.choice([-1, 1]))
        info = {"kind": kind, "n": n, "rows": rows, "lam": sign * lam, "array": a, "target": b, **info0}
        if kw["rcond"] == 0.2 and kind != "ill":
            rc, sv = 0.2, np.linalg.svd(a + lam * ident, compute_uv=False)
            if np.any((sv > 0.17 * sv[0]) & (sv < 0.23 * sv[0])):
                continue
        if kw["rcond"] in (None, -1) and (kind == "singular" or (kind == "block" and which == "randomised" and not case["x64"])):
            continue  # the default threshold is within rounding of the zero singular values
        fn = solver.solve if rep == 0 else solve
        got = mon.call("solve", fn, arr(a), jnp.asarray(sign * lam, dtype=float) if rep else sign * lam, arr(b), arr(ident))
        want, full = solution(a, lam, b, ident, rc)
        sv = np.linalg.svd(full, compute_uv=False)
        cond = sv[0] / max(sv[sv > rc * sv[0]].min(), 1e-300)
        scale = (1 + np.max(np.abs(want))) * cond
        mon.close(got, want, "solves the regularised system (least norm if singular)", rtol=tol, scale=scale, **info)
        if kind == "block" and rows < n:
            g = np.asarray(got, dtype=float)
            mon.close(g[rows:], np.zeros_like(g[rows:]), "the padding of a block system is solved by zeros", atol=tol * scale, **info)
        again = mon.call("solve", fn, arr(a), jnp.asarray(sign * lam, dtype=float) if rep else sign * lam, arr(b), arr(ident))
        mon.check(np.array_equal(np.asarray(again), np.asarray(got)), "deterministic", **info)
        mon.sig(which, kind, n, b.shape[1], sorted(map(str, kw.items())))
        if rep == 0:
            mon.sample(result=got, want=want, **info)


def decomposition(case, mon, r, tol):
    """Randomised eigendecomposition of arrays of low rank."""
    n = int(r.choice([5, 12, 30]))
    rank = int(r.integers(1, min(n, 8) + 1))
    samples = int(r.integers(rank, n + 1))
    power = int(r.integers(0, 3))
    solver = mon.call(
        "constructor", lib.RandomisedEigendecompositionSolver, lib.jr.key(gen.seed(r)), oversampling_parameter=samples, power_iterations=power
    )
    for _ in range(3):
        a = spectrum(r, n, rank, "mixed")
        a = gen.f32((a + a.T) / 2)
        info = {"n": n, "rank": rank, "samples": samples, "power_iterations": power, "array": a}
        val, vec = mon.call("decompose", solver.randomised_eigendecomposition, lib.jnp.asarray(a, dtype=float))
        val, vec = np.asarray(val, dtype=float), np.asarray(vec, dtype=float)
        mon.need(val.shape == (samples,) and vec.shape == (n, samples), "shapes", got=[val.shape, vec.shape], **info)
        t = 5e-7 + 20 * tol  # float32 rounding of the array breaks its low rank
        mon.close((vec * val) @ vec.T, a, "U L U' is the array", atol=t * np.max(np.abs(a)) * 30, **info)
        mon.close(vec.T @ vec, np.eye(samples), "eigenvectors are orthonormal", atol=t, **info)
        mon.sig("decomposition", n, rank, samples, power)
    mon.sample(eigenvalues=val, **info)
