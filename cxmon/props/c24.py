"""Data and coreset containers keep points, supervision and weights aligned."""

import numpy as np

from cxmon import gen, greedy, lib, ref

RULE = (
    "a case builds containers from one set of arrays in every accepted argument form, applies sequences of indexing, padding, "
    "conversion and normalisation to them and compares them with the same operations on the plain arrays; distinct: by form, "
    "shapes, dtype, weights and operations"
)
ASSUMPTIONS = ["weights are non-negative and finite", "indices of a coresubset are valid rows"]


def cases(tier, seed, rnd):
    r = gen.rng("C24", seed, rnd)
    for i in range(40 if tier == "quick" else 160):
        yield {"kind": ["data", "coreset"][i % 2], "x64": bool((i // 2) % 2), "seed": gen.seed(r), "cost": 1}


def run(case, mon):
    r = gen.rng(case["seed"])
    (data if case["kind"] == "data" else coreset)(case, mon, r)


def same(mon, ds, x, y, w, mech, **info):
    """A container holds exactly these rows."""
    got = np.asarray(ds.data)
    ok = got.shape == x.shape and np.array_equal(got.astype(float), x)
    ok = ok and np.array_equal(np.asarray(ds.weights, dtype=float), w) and np.asarray(ds.weights).shape == w.shape
    if y is not None:
        ok = ok and isinstance(ds, lib.SupervisedData) and np.array_equal(np.asarray(ds.supervision, dtype=float), y)
    else:
        ok = ok and not isinstance(ds, lib.SupervisedData)
    return mon.check(ok, mech, data=got, weights=ds.weights, want_data=x, want_weights=w, **info)


def data(case, mon, r):
    jnp = lib.jnp
    n, d = int(r.choice([1, 2, 3, 7])), int(r.integers(1, 4))
    for _ in range(8):
        form = str(r.choice(["matrix", "vector", "scalar", "ints", "numpy"]))
        x = gen.points(r, n, d, "ints" if form == "ints" else "normal")
        dt = jnp.int32 if form == "ints" else float
        arg = jnp.asarray(x, dtype=dt)
        if form == "vector":
            arg, x = arg[:, 0], x[:, :1]
        elif form == "scalar":
            arg, x = float(x[0, 0]), x[:1, :1]
        elif form == "numpy":
            arg = np.asarray(arg)
        m = len(x)
        wk = str(r.choice(["none", "rand", "zeros", "int", "scalar", "intscalar", "allzero"]))
        if wk == "intscalar":
            warg = int(r.integers(1, 5))
        elif wk == "allzero":
            warg = np.zeros(m)
        else:
            warg = gen.weights(r, m, wk)
        w = np.ones(m) if warg is None else np.broadcast_to(np.asarray(warg, dtype=float), (m,)).copy()
        jw = warg if warg is None or np.ndim(warg) == 0 else jnp.asarray(warg, dtype=float)
        sup = bool(r.integers(2))
        p = int(r.integers(1, 3))
        y = None
        if sup:
            y = gen.points(r, m, p)
            yarg = jnp.asarray(y, dtype=float)
            if r.integers(2):
                yarg, y = yarg[:, 0], y[:, :1]
            ds = mon.call("SupervisedData", lib.SupervisedData, arg, yarg, jw)
        else:
            ds = mon.call("Data", lib.Data, arg, jw)
        info = {"form": form, "weights_kind": wk, "sup": sup}
        if not same(mon, ds, x, y, w, "stores what it was given", **info):
            continue
        mon.check(len(ds) == m and tuple(ds.shape) == x.shape, "length and shape", got=[len(ds), ds.shape], **info)
        mon.check(ds.dtype == ds.data.dtype and (form != "ints" or np.asarray(ds.data).dtype.kind == "i"), "dtype is kept", dtype=str(ds.dtype), **info)
        full = x if y is None else np.hstack([x, y])
        arr = np.asarray(mon.call("asarray", jnp.asarray, ds), dtype=float)
        mon.check(np.array_equal(arr, full), "array conversion is data (and supervision)", got=arr, want=full, **info)
        # a history of operations, on the container and on the plain arrays
        cx, cy, cw, cur = x, y, w, ds
        ops = []
        for _ in range(4):
            op = str(r.choice(["take", "slice", "mask", "pad", "normalize", "as_data", "reverse"]))
            k = len(cx)
            if op == "take":
                key = r.integers(-k, k, size=int(r.integers(1, 6)))
                cur = cur[jnp.asarray(key)]
            elif op == "slice":
                a = int(r.integers(0, k))
                key = slice(a, int(r.integers(a + 1, k + 1)))
                cur = cur[key]
            elif op == "reverse":
                key = slice(None, None, -1)
                cur = cur[key]
            elif op == "mask":
                key = r.random(k) < 0.7
                key[int(r.integers(k))] = True
                cur = cur[np.asarray(key)]
            if op in ("take", "slice", "reverse", "mask"):
                cx, cw, cy = cx[key], cw[key], None if cy is None else cy[key]
            elif op == "pad":
                width = int(r.integers(0, 4))
                cur = mon.call("pad", lib.tree_zero_pad_leading_axis, cur, width)
                cx, cw = np.pad(cx, ((0, width), (0, 0))), np.pad(cw, (0, width))
                cy = None if cy is None else np.pad(cy, ((0, width), (0, 0)))
            elif op == "as_data":
                cur = mon.call("as_data", lib.as_data, cur)
            else:
                zeros = not cw.any()
                preserve = zeros or bool(r.integers(2))
                before = cur
                cur = mon.call("normalize", cur.normalize, preserve_zeros=preserve)
                got = np.asarray(cur.weights, dtype=float)
                want = np.zeros_like(cw) if zeros else cw / cw.sum()
                mon.close(got, want, "normalised weights are proportional and sum to one", rtol=1e-14 if case["x64"] else 1e-6, scale=1.0, **info)
                mon.check(np.array_equal(np.asarray(before.weights, dtype=float), cw), "normalize returns a copy", **info)
                cw = got
            ops.append(op)
            if not same(mon, cur, cx, cy, cw, "rows, supervision and weights stay aligned", ops=ops, **info):
                break
        one = int(r.integers(m))
        row = ds[one]
        ok = np.array_equal(np.asarray(row.data, dtype=float), x[one]) and float(row.weights) == w[one]
        mon.check(ok, "a single row", got=row.data, want=x[one], **info)
        mon.check(lib.as_data(ds) is ds, "as_data returns data unchanged", **info)
        conv = lib.as_data(jnp.asarray(x, dtype=float))
        same(mon, conv, x, None, np.ones(m), "as_data wraps an array", **info)
        if sup:
            mon.check(lib.as_supervised_data(ds) is ds, "as_supervised_data returns data unchanged", **info)
            conv = lib.as_supervised_data((jnp.asarray(x, dtype=float), jnp.asarray(y, dtype=float)))
            same(mon, conv, x, y, np.ones(m), "as_supervised_data wraps a pair", **info)
        mon.sig("data", form, wk, sup, m, ops)
    mon.sample(x=x, w=w, y=y, ops=ops, **info)


def coreset(case, mon, r):
    jnp = lib.jnp
    n, d, p = int(r.choice([2, 3, 6, 9])), int(r.integers(1, 4)), int(r.integers(1, 3))
    spec = gen.kernel(r, str(r.choice(["se", "pcimq"])), 1.0)
    kern = ref.ref(spec)
    metric = lib.MMD(ref.build(spec))
    arr = lambda v: jnp.asarray(v, dtype=float)  # noqa: E731
    for _ in range(4):
        x, y = gen.points(r, n, d), gen.points(r, n, p)
        m = int(r.integers(1, n + 1))
        idx = r.integers(0, n, size=m)
        sup = bool(r.integers(2))
        wk = str(r.choice(["rand", "zeros", "none"]))
        w = gen.weights(r, n, wk)
        cwk = str(r.choice(["rand", "none", "scalar"]))
        cw = gen.weights(r, m, cwk)
        w_ = np.ones(n) if w is None else w
        cw_ = np.ones(m) if cw is None else np.broadcast_to(np.asarray(cw, dtype=float), (m,))
        jw, jcw = (None if v is None else arr(v) for v in (w, cw))
        pre = lib.SupervisedData(arr(x), arr(y), jw) if sup else lib.Data(arr(x), jw)
        jidx = jnp.asarray(idx, dtype=jnp.int32)
        c = gen.points(r, m, d)
        info = {"n": n, "m": m, "sup": sup, "weights_kind": wk, "coreset_weights": cwk, "rows": x, "idx": idx}
        subs = {
            "Data, Data": lib.Coresubset(lib.Data(jidx, jcw), pre),
            "build(Data, Data)": mon.call("build", lib.Coresubset.build, lib.Data(jidx, jcw), pre),
            "column": lib.Coresubset(lib.Data(jidx[:, None], jcw), pre),
        }
        pseudo = {
            "Data, Data": lib.PseudoCoreset(lib.Data(arr(c), jcw), pre),
            "build(Data, Data)": mon.call("build", lib.PseudoCoreset.build, lib.Data(arr(c), jcw), pre),
        }
        if cw is None:
            subs["build(array, Data)"] = mon.call("build", lib.Coresubset.build, jidx, pre)
            pseudo["build(array, Data)"] = mon.call("build", lib.PseudoCoreset.build, arr(c), pre)
        if w is None:
            raw = (arr(x), arr(y)) if sup else arr(x)
            subs["build(Data, raw)"] = mon.call("build", lib.Coresubset.build, lib.Data(jidx, jcw), raw)
            pseudo["build(Data, raw)"] = mon.call("build", lib.PseudoCoreset.build, lib.Data(arr(c), jcw), raw)
        for group, forms in (("subset", subs), ("pseudo", pseudo)):
            want_x = x[idx] if group == "subset" else c
            want_y = y[idx] if sup and group == "subset" else None
            value = ref.mmd(kern, x, want_x, w_, cw_)
            for form, cs in forms.items():
                same(mon, cs.points, want_x, want_y, cw_, group + ": points and weights", build_form=form, **info)
                same(mon, cs.pre_coreset_data, x, y if sup else None, w_, group + ": pre_coreset_data", build_form=form, **info)
                mon.check(len(cs) == m, group + ": length", got=len(cs), build_form=form, **info)
                if group == "subset":
                    ui = np.asarray(cs.unweighted_indices)
                    mon.check(ui.shape == (m,) and np.array_equal(ui, idx), "subset: unweighted_indices", got=ui, build_form=form, **info)
                    mon.check(np.array_equal(np.asarray(cs.indices.weights, dtype=float), cw_), "subset: weighted indices", build_form=form, **info)
                if form in ("Data, Data", "build(array, Data)"):
                    got = mon.call("compute_metric", cs.compute_metric, metric, block_size=[None, 2][int(r.integers(2))])
                    tol = 1e-7 if case["x64"] else 2e-3
                    mon.close(got, value, group + ": metric value", atol=tol * np.sqrt(kern.k(x[:1], x[:1]).max()), build_form=form, **info)
        mon.sig("coreset", n, m, sup, wk, cwk)
    mon.sample(**info)
