"""Utility transforms meet their contracts for every shape and size."""

import numpy as np

from cxmon import gen, lib
from cxmon.law import Law

RULE = (
    "a case calls one public utility on many generated shapes, pytrees, dtypes, thresholds or keys and compares the result "
    "with an independent numpy definition (random batches: with their law, over thousands of keys); distinct: by function, "
    "shape, dtype, arguments"
)
ASSUMPTIONS = ["median_heuristic needs at least two points", "laws are tested to six standard errors over the recorded draws"]
KINDS = ["batch", "batchlaw", "pad", "repeat", "pairwise", "distance", "threshold", "median", "time", "timing"]


def cases(tier, seed, rnd):
    r = gen.rng("C26", seed, rnd)
    for i in range(30 if tier == "quick" else 100):
        yield {"kind": KINDS[i % len(KINDS)], "x64": bool((i // len(KINDS)) % 2), "seed": gen.seed(r), "cost": 1}


def run(case, mon):
    globals()["do_" + case["kind"]](case, mon, gen.rng(case["seed"]))


def do_batch(case, mon, r):
    for _ in range(40):
        n = int(r.choice([1, 2, 3, 5, 8, 13, 50]))
        b = int(r.choice([0, 1, n, max(0, n - 1), int(r.integers(0, n + 1))]))
        k = int(r.choice([1, 2, 3, 10]))
        key = lib.jr.key(gen.seed(r))
        info = {"max_index": n, "batch_size": b, "num_batches": k}
        got = np.asarray(mon.call("sample_batch_indices", lib.sample_batch_indices, key, n, b, k))
        mon.need(got.shape == (k, b), "sample_batch_indices: shape", got=got.shape, **info)
        mon.check(got.dtype.kind in "iu", "sample_batch_indices: not integers", got=str(got.dtype))
        mon.check(bool(np.all((got >= 0) & (got < n))), "sample_batch_indices: index out of range", got=got, **info)
        mon.check(all(len(set(row)) == b for row in got.tolist()), "sample_batch_indices: repeats in a batch", got=got, **info)
        again = np.asarray(lib.sample_batch_indices(key, n, b, k))
        mon.check(np.array_equal(got, again), "sample_batch_indices: not deterministic", **info)
        mon.sig("batch", n, b, k, got.ravel()[:4].tolist())
    for n, b in ((3, 4), (0, 1), (5, -1), (10, 11)):
        mon.raises(ValueError, "sample_batch_indices: infeasible batch", lib.sample_batch_indices, lib.jr.key(0), n, b, 2)


def do_batchlaw(case, mon, r):
    """Every batch is a uniform ordered sample, batches are independent."""
    for _ in range(3):
        n = int(r.choice([2, 3, 5, 7]))
        b = int(r.integers(1, n + 1))
        k = int(r.choice([1, 2, 3]))
        runs = 4000
        info = {"max_index": n, "batch_size": b, "num_batches": k}
        ks = lib.jr.split(lib.jr.key(gen.seed(r)), runs)
        fn = lib.jax.jit(lib.jax.vmap(lambda key, n=n, b=b, k=k: lib.sample_batch_indices(key, n, b, k)))
        out = np.asarray(mon.call("sample_batch_indices", fn, ks))
        mon.need(out.shape == (runs, k, b), "sample_batch_indices: shape", got=out.shape, **info)
        law = Law(mon, "sample_batch_indices", r, info)
        rows = np.arange(runs)
        for q in range(k):
            free = np.ones((runs, n))
            for step in range(b):
                tot = free.sum(axis=1, keepdims=True)
                p = free / tot
                c = out[:, q, step]
                mon.need(bool(np.all(p[rows, c] > 0)), "sample_batch_indices: repeats in a batch", **info)
                law.step(p, c, (q, step))
                free[rows, c] = 0
            if q:
                # rows of different batches collide as independent uniform draws do
                same = (out[:, q, 0] == out[:, q - 1, 0]).sum()
                lim = 6 * np.sqrt(runs / n * (1 - 1 / n)) + 4
                mon.check(abs(same - runs / n) <= lim, "batches are dependent", same=int(same), expected=runs / n, **info)
        mon.sig("batchlaw", n, b, k)


DTYPES = ["float32", "int32", "bool", "float16", "uint8", "complex64"]


def arr(r, shape, dt):
    if dt == "bool":
        return r.integers(0, 2, size=shape).astype(bool)
    if dt in ("int32", "uint8"):
        return r.integers(1, 100, size=shape).astype(dt)
    return (r.normal(size=shape) + 2).astype(dt)


def tree(r, depth=2):
    """A random pytree of arrays, non-arrays and containers."""
    kind = int(r.integers(0, 8 if depth else 5))
    if kind < 3:
        shape = (int(r.integers(0, 5)),) + tuple(int(s) for s in r.integers(0, 4, size=int(r.integers(0, 3))))
        a = arr(r, shape, str(r.choice(DTYPES)))
        return lib.jnp.asarray(a)
    if kind == 3:
        return [None, 1.5, 7, "text", True][int(r.integers(5))]
    if kind == 4:
        n = int(r.integers(1, 5))
        x, y = gen.f32(r.normal(size=(n, 2))), gen.f32(r.normal(size=(n, 1)))
        w = gen.f32(r.uniform(0.5, 1, size=n))
        jnp = lib.jnp
        if r.integers(2):
            return lib.Data(jnp.asarray(x), jnp.asarray(w))
        return lib.SupervisedData(jnp.asarray(x), jnp.asarray(y), jnp.asarray(w))
    subs = [tree(r, depth - 1) for _ in range(int(r.integers(1, 4)))]
    if kind == 5:
        return subs
    if kind == 6:
        return tuple(subs)
    return {f"k{i}": s for i, s in enumerate(subs)}


def do_pad(case, mon, r):
    jtu = lib.jax.tree_util
    for _ in range(40):
        t = tree(r)
        pad = int(r.choice([0, 1, 2, 7]))
        arg = [pad, np.int64(pad), float(pad)][int(r.integers(3))]
        leaves, treedef = jtu.tree_flatten(t, is_leaf=lambda v: v is None)
        before = [np.array(v) if isinstance(v, lib.jax.Array) else v for v in leaves]
        got = mon.call("tree_zero_pad_leading_axis", lib.tree_zero_pad_leading_axis, t, arg)
        gl, gd = jtu.tree_flatten(got, is_leaf=lambda v: v is None)
        mon.need(len(gl) == len(leaves), "tree_zero_pad: structure changed", tree=str(treedef), got=str(gd))
        for a, b in zip(before, gl):
            if isinstance(a, np.ndarray):
                b = np.asarray(b)
                ok = (
                    b.dtype == a.dtype
                    and b.shape == (a.shape[0] + pad, *a.shape[1:])
                    and np.array_equal(b[: len(a)], a)
                    and not np.any(b[len(a) :])
                )
                mon.check(ok, "tree_zero_pad: array leaf", before=a, after=b, dtype=str(b.dtype), pad=pad)
                mon.sig("pad", a.shape, str(a.dtype), pad)
            else:
                mon.check(b is a or b == a, "tree_zero_pad: other leaf changed", before=str(a), after=str(b))
        mon.check(type(got) is type(t), "tree_zero_pad: type changed", got=str(type(got)))
        now = jtu.tree_flatten(t, is_leaf=lambda v: v is None)[0]
        for a, b in zip(before, now):
            mon.check(np.array_equal(np.asarray(a), np.asarray(b)) if isinstance(a, np.ndarray) else a is b,
                      "tree_zero_pad: argument modified")  # fmt: skip
    for pad in (-1, -5):
        mon.raises(ValueError, "tree_zero_pad: negative width", lib.tree_zero_pad_leading_axis, lib.jnp.ones((2, 2)), pad)


def flat(t):
    if isinstance(t, (list, tuple)):
        return [v for s in t for v in flat(s)]
    if isinstance(t, dict):
        return [v for k in sorted(t) for v in flat(t[k])]
    return [t]


def do_repeat(case, mon, r):
    def rand(depth):
        k = int(r.integers(0, 7 if depth else 4))
        if k < 4:
            return [None, int(r.integers(100)), float(r.normal()), "s"][k]
        subs = [rand(depth - 1) for _ in range(int(r.integers(1, 4)))]
        return subs if k == 4 else tuple(subs) if k == 5 else {f"k{i}": s for i, s in enumerate(subs)}

    for _ in range(80):
        t = rand(2)
        length = int(r.integers(0, 7))
        leaves = flat(t)
        want = leaves + [leaves[-1]] * max(0, length - len(leaves))
        got = mon.call("tree_leaves_repeat", lib.tree_leaves_repeat, t, length)
        mon.check(list(got) == want, "tree_leaves_repeat", tree=str(t), length=length, got=str(got), want_=str(want))
        mon.sig("repeat", str(t), length)
        if len(leaves) <= 2:
            two = mon.call("tree_leaves_repeat", lib.tree_leaves_repeat, t)
            mon.check(
                list(two) == leaves + [leaves[-1]] * (2 - len(leaves)), "tree_leaves_repeat: default length", tree=str(t)
            )  # fmt: skip


def do_pairwise(case, mon, r):
    jnp = lib.jnp
    fns = {
        "dot": (lambda a, b: jnp.dot(a, b), lambda a, b: np.dot(a, b)),
        "asym": (lambda a, b: jnp.sum(a) - 2 * jnp.sum(b), lambda a, b: a.sum() - 2 * b.sum()),
        "vec": (lambda a, b: a * 3 - b, lambda a, b: a * 3 - b),
        "outer": (lambda a, b: jnp.outer(a, b), lambda a, b: np.outer(a, b)),
    }
    for _ in range(12):
        n, m, d = (int(v) for v in r.integers(1, 6, size=3))
        x, y = gen.f32(r.normal(size=(n, d))), gen.f32(r.normal(size=(m, d)))
        for name, (f, g) in fns.items():
            got = mon.call("pairwise", lib.pairwise(f), jnp.asarray(x), jnp.asarray(y))
            want = np.array([[g(a, b) for b in y] for a in x])
            mon.close(got, want, "pairwise " + name, rtol=1e-6, n=n, m=m, d=d)
            mon.sig("pairwise", name, n, m, d)
        v = mon.call("pairwise", lib.pairwise(fns["asym"][0]), jnp.asarray(x[0]), jnp.asarray(y))
        mon.close(v, np.array([[x[0].sum() - 2 * b.sum() for b in y]]), "pairwise of a vector", rtol=1e-6)
        s = mon.call("pairwise", lib.pairwise(fns["asym"][0]), 1.5, 2)
        mon.close(s, np.array([[-2.5]]), "pairwise of scalars", rtol=1e-6)


def do_distance(case, mon, r):
    jnp = lib.jnp
    for _ in range(40):
        d = int(r.choice([1, 2, 5, 30]))
        sc = float(r.choice([1e-3, 1.0, 1e3]))
        x, y = gen.f32(sc * r.normal(size=d)), gen.f32(sc * r.normal(size=d))
        if r.integers(5) == 0:
            y = x.copy()
        tol = {"ertol": 1e-12 if case["x64"] else 1e-5}
        got = mon.call("squared_distance", lib.squared_distance, jnp.asarray(x), jnp.asarray(y))
        mon.close(got, ((x - y) ** 2).sum(), "squared_distance", **tol, atol=1e-10 * sc * sc, x=x, y=y)
        got = mon.call("difference", lib.difference, jnp.asarray(x), jnp.asarray(y))
        mon.close(got, x - y, "difference", **tol, atol=1e-7 * sc, x=x, y=y)
        a, b = float(x[0]), int(r.integers(-5, 6))
        mon.close(lib.squared_distance(a, b), (a - b) ** 2, "squared_distance of scalars", ertol=1e-5, atol=1e-6 * sc)
        mon.close(lib.difference(b, a), np.array([b - a]), "difference of scalars", ertol=1e-5, atol=1e-6 * sc)
        mon.sig("distance", d, sc, round(float(x[0]), 4))


def do_threshold(case, mon, r):
    for _ in range(60):
        t = float(gen.f32(10.0 ** r.uniform(-9, 1))) * (1 if r.integers(4) else -1)
        f = float(r.choice([-3.0, -1.5, -0.75, -0.5, -1e-3, 0.0, 1e-3, 0.5, 2.0]))
        v = float(gen.f32(f * abs(t)))
        got = float(mon.call("threshold", lib.apply_negative_precision_threshold, v, t))
        want = 0.0 if -abs(t) < v < 0 else v
        mon.close(np.asarray(got), want, "apply_negative_precision_threshold", ertol=1e-6, x=v, threshold=t)
        mon.sig("threshold", f, round(t, 6))
    for v, want in ((-1e-9, 0.0), (-1e-7, -1e-7), (1e-9, 1e-9), (3, 3.0), (-4, -4.0), (0, 0.0)):
        got = float(mon.call("threshold", lib.apply_negative_precision_threshold, v))
        mon.close(np.asarray(got), want, "apply_negative_precision_threshold: default", ertol=1e-6, x=v)


def do_median(case, mon, r):
    for i in range(14):
        n = int(r.choice([2, 3, 4, 5, 9, 30]))
        d = int(r.choice([1, 2, 7]))
        geom = str(r.choice(["normal", "dups", "clusters", "shift", "big", "small", "outlier", "constcol"]))
        x = gen.points(r, n, d, geom)
        sq = ((x[:, None] - x[None]) ** 2).sum(-1)[np.triu_indices(n, 1)]
        want = np.sqrt(np.median(sq) / 2)
        arg = x[:, 0] if d == 1 and i % 2 else x
        got = mon.call("median_heuristic", lib.median_heuristic, lib.jnp.asarray(arg))
        tol = {"ertol": 1e-9 if case["x64"] else 2e-4}
        mon.close(got, want, "median_heuristic", **tol, n=n, d=d, geom=geom, x=x)
        mon.sig("median", n, d, geom, round(float(want), 4))


UNITS = {"ps": 1e-12, "ns": 1e-9, "μs": 1e-6, "ms": 1e-3, "s": 1.0, "mins": 60.0}


def do_time(case, mon, r):
    vals = [0.0, 0.4531, 1.0, 60.0, 99.9, 100.0, 1e-3, 1e-6, 1e-9, 5e-13, 3600.0, 1e5, 0.9994]
    vals += [float(v) for v in 10.0 ** r.uniform(-12, 6, size=120)]
    vals += [-v for v in vals[1:20]]
    for v in vals:
        text = mon.call("format_time", lib.format_time, v)
        parts = str(text).split(" ")
        mon.need(len(parts) == 2 and parts[1] in UNITS, "format_time: malformed", value=v, got=text)
        num, unit = float(parts[0]), UNITS[parts[1]]
        mon.check(abs(num * unit - v) <= 0.00501 * unit + 1e-9 * abs(v), "format_time: wrong value", value=v, got=text)
        a = abs(v)
        if a > 0 and min(abs(a / b - 1) for b in (1e-9, 1e-6, 1e-3, 1.0, 100.0)) > 1e-9:
            want = "ps" if a < 1e-9 else "ns" if a < 1e-6 else "μs" if a < 1e-3 else "ms" if a < 1 else "s" if a < 100 else "mins"
            mon.check(parts[1] == want, "format_time: wrong unit", value=v, got=text, want_=want)
        mon.sig("time", parts[1], round(np.log10(a), 1) if a else 0)


def do_timing(case, mon, r):
    """jit_test and speed_comparison_test time the functions they were given, that often."""
    jnp, calls = lib.jnp, []

    def fn(x, scale=1.0):
        calls.append("trace")
        return x * scale

    x = jnp.arange(float(r.integers(2, 6)))
    got = mon.call("jit_test", lib.jit_test, fn, (x,), {"scale": 2.0})
    mon.check(len(got) == 2 and all(float(t) > 0 for t in got), "jit_test: two positive times", got=got)
    mon.check(len(calls) == 1, "jit_test: compiled other than once", traces=len(calls))
    runs = int(r.integers(2, 5))
    norm = None if r.integers(2) else (2.0, 4.0)
    setups = [lib.JITCompilableFunction(fn, (x,), name="named"), lib.JITCompilableFunction(fn, (x,), {"scale": 3.0})]
    summary, table = mon.call(
        "speed_comparison_test", lib.speed_comparison_test, setups, num_runs=runs, normalisation=norm
    )
    mon.check(set(table) == {"named", "function_2"} and len(summary) == 2, "speed_comparison_test: names", got=list(table))
    for (mean, std), rows in zip(summary, table.values()):
        rows = np.asarray(rows, dtype=float)
        mon.need(rows.shape == (runs, 2), "speed_comparison_test: shape", got=rows.shape)
        mon.close(mean, rows.mean(axis=0), "speed_comparison_test: mean", rtol=1e-4)
        mon.close(std, rows.std(axis=0), "speed_comparison_test: deviation", rtol=1e-3, scale=np.abs(rows).max())
    mon.sig("timing", runs, norm)
