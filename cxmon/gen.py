"""Seeded generators of datasets, weights and kernels (values exact in float32)."""

import numpy as np


def rng(*seed):
    """Deterministic generator from any mixture of integers and strings."""
    out = []
    for s in seed:
        if isinstance(s, str):
            out.extend(s.encode())
        else:
            out.append(int(s) & 0xFFFFFFFF)
    return np.random.default_rng(out)


def f32(x):
    """Round to float32 but keep float64 storage."""
    return np.asarray(x, dtype=np.float32).astype(np.float64)


def seed(r):
    """A fresh seed, for a case."""
    return int(r.integers(0, 2**31 - 1))


GEOMS = (
    "normal", "dups", "line", "constcol", "clusters", "big", "small", "ints",
    "outlier", "grid", "shift",
)  # fmt: skip


def points(r, n, d, geom="normal"):
    """An (n, d) dataset of the given geometry."""
    x = r.normal(size=(n, d))
    if geom == "dups":
        base = x[: max(1, (n + 1) // 2)]
        x = base[r.integers(0, len(base), size=n)]
    elif geom == "line":
        t = r.normal(size=(n, 1))
        x = t * r.normal(size=(1, d)) + r.normal(size=(1, d))
    elif geom == "constcol":
        x[:, int(r.integers(d))] = float(r.normal())
    elif geom == "clusters":
        c = 4 * r.normal(size=(3, d))
        x = c[r.integers(0, 3, size=n)] + 0.2 * x
    elif geom == "big":
        x = 1e3 * x
    elif geom == "small":
        x = 1e-3 * x
    elif geom == "ints":
        x = r.integers(-3, 4, size=(n, d)).astype(float)
    elif geom == "outlier":
        x[int(r.integers(n))] += 30.0
    elif geom == "grid":
        x = np.stack([np.linspace(-2, 2, n)] * d, axis=1)
        x[:, 1:] = x[:, 1:] ** 2
    elif geom == "shift":
        x = x + 10.0
    elif geom == "same":
        x = np.repeat(x[:1], n, axis=0)
    return f32(x)


def scale_of(x):
    """A typical distance within the data."""
    x = np.asarray(x)
    if len(x) < 2:
        return 1.0
    d = np.sqrt(((x[:, None] - x[None]) ** 2).sum(-1))
    med = float(np.median(d[np.triu_indices(len(x), 1)]))
    return med if med > 0 else 1.0


WKINDS = ("none", "rand", "zeros", "big", "scalar", "skew", "int")


def weights(r, n, kind="none", min_pos=1):
    """Weights of the given kind (None, a scalar or an (n,) array)."""
    if kind == "none":
        return None
    if kind == "scalar":
        return float(f32(r.uniform(0.5, 3)))
    if kind == "rand":
        return f32(r.uniform(0.1, 1, size=n))
    if kind == "big":
        return f32(1e4 * r.uniform(0.1, 1, size=n))
    if kind == "small":
        return f32(1e-4 * r.uniform(0.1, 1, size=n))
    if kind == "int":
        return r.integers(1, 5, size=n).astype(np.float64)
    if kind == "skew":
        return f32(np.exp(2 * r.normal(size=n)))
    if kind == "zeros":
        w = f32(r.uniform(0.1, 1, size=n))
        n_zero = min(n - min_pos, max(1, n // 4)) if n > min_pos else 0
        w[r.permutation(n)[: max(0, n_zero)]] = 0.0
        return w
    if kind == "uniform":
        return np.ones(n)
    raise ValueError(kind)


def par(r, lo=0.4, hi=2.5):
    """A kernel parameter, log-uniform, exactly representable."""
    return float(np.round(np.exp(r.uniform(np.log(lo), np.log(hi))) * 64) / 64)


def kernel(r, family, ls=1.0):
    """A kernel specification of a family; length scales are multiples of `ls`."""
    scale = lambda: float(np.float32(ls * par(r, 0.5, 2.0)))  # noqa: E731
    if family in ("se", "pcimq"):
        return [family, scale(), par(r)]
    if family in ("exp", "lap"):
        # these divide a plain distance by 2*ls^2
        return [family, float(np.float32(np.sqrt(ls * par(r, 0.3, 2.0)))), par(r)]
    if family == "rq":
        return ["rq", scale(), par(r), par(r, 0.5, 3.0)]
    if family == "mat":
        return ["mat", scale(), par(r), int(r.integers(0, 5))]
    if family == "smat":
        return ["mat", scale(), par(r), int(r.integers(1, 5))]
    if family == "lin":
        return ["lin", par(r), par(r)]
    if family == "poly":
        return ["poly", par(r), par(r), int(r.integers(2, 4))]
    if family == "per":
        return ["per", par(r), par(r), par(r) * 2]
    if family == "lper":
        return ["lper", par(r), par(r), par(r) * 2, scale(), par(r)]
    if family == "poi":
        return ["poi", par(r, 0.1, 0.9), par(r)]
    if family == "comp":
        fams = ["se", "pcimq", "rq", "smat", "lin", "lap", "exp"]
        return composite(r, ls, fams, int(r.integers(1, 3)))
    if family == "scomp":
        fams = ["se", "pcimq", "rq", "smat", "lin"]
        return composite(r, ls, fams, int(r.integers(1, 3)))
    if family == "ticomp":
        fams = ["se", "pcimq", "rq", "smat"]
        return composite(r, ls, fams, 1)
    raise ValueError(family)


def composite(r, ls, fams, depth):
    """A random expression over kernels with +, *, ** and scalars."""
    if depth == 0:
        return kernel(r, fams[int(r.integers(len(fams)))], ls)
    op = ["add", "mul", "pow", "addc", "raddc", "mulc", "rmulc", "cadd", "cmul"][
        int(r.integers(9))
    ]
    a = composite(r, ls, fams, depth - 1)
    if op in ("add", "mul", "cadd", "cmul"):
        return [op, a, composite(r, ls, fams, int(r.integers(depth)))]
    if op == "pow":
        return [op, a, int(r.integers(1, 4))]
    c = par(r) if r.integers(2) else int(r.integers(1, 4))
    return [op, a, c]
