"""Independent float64 NumPy references for coreax's mathematics.

A kernel is a JSON specification such as ``["se", ls, os]``; :func:`ref` gives its
reference implementation and :func:`build` the coreax object.
"""

import math

import numpy as np

from cxmon import lib


def arr2(x):
    """As a float64 matrix of rows."""
    x = np.asarray(x, dtype=np.float64)
    if x.ndim == 0:
        return x.reshape(1, 1)
    if x.ndim == 1:
        return x.reshape(1, -1)
    return x


class K:
    """Reference kernel: all methods take (n,d) and (m,d) float64 arrays."""

    ti = False  # translation invariant
    smooth = True  # twice differentiable everywhere, including x=y

    def k(self, x, y):
        raise NotImplementedError

    def gx(self, x, y):
        raise NotImplementedError

    def gy(self, x, y):
        raise NotImplementedError

    def div(self, x, y):
        raise NotImplementedError


def _diff(x, y):
    return x[:, None, :] - y[None, :, :]


def _dist(x, y):
    d = _diff(x, y)
    return np.sqrt(np.sum(d * d, axis=-1))


class Radial(K):
    """k = h(r) with r the Euclidean distance; subclasses give h, h'/r and h''."""

    ti = True

    def h(self, r):
        raise NotImplementedError

    def h1r(self, r):
        raise NotImplementedError

    def h2(self, r):
        raise NotImplementedError

    def k(self, x, y):
        return self.h(_dist(x, y))

    def gx(self, x, y):
        return self.h1r(_dist(x, y))[..., None] * _diff(x, y)

    def gy(self, x, y):
        return -self.gx(x, y)

    def div(self, x, y):
        # - Laplacian of h(|z|) = -(h'' + (d-1) h'/r)
        r = _dist(x, y)
        return -(self.h2(r) + (x.shape[1] - 1) * self.h1r(r))


class SE(Radial):
    def __init__(self, ls, os):
        self.ls, self.os = ls, os

    def h(self, r):
        return self.os * np.exp(-r * r / (2 * self.ls**2))

    def h1r(self, r):
        return -self.h(r) / self.ls**2

    def h2(self, r):
        return self.h(r) * (r * r / self.ls**4 - 1 / self.ls**2)


class Exp(Radial):
    smooth = False

    def __init__(self, ls, os):
        self.a, self.os = 1 / (2 * ls**2), os

    def h(self, r):
        return self.os * np.exp(-self.a * r)

    def h1r(self, r):
        return -self.a * self.h(r) / r

    def h2(self, r):
        return self.a**2 * self.h(r)


class Lap(K):
    ti = True
    smooth = False

    def __init__(self, ls, os):
        self.a, self.os = 1 / (2 * ls**2), os

    def k(self, x, y):
        return self.os * np.exp(-self.a * np.sum(np.abs(_diff(x, y)), axis=-1))

    def gx(self, x, y):
        return -self.a * np.sign(_diff(x, y)) * self.k(x, y)[..., None]

    def gy(self, x, y):
        return -self.gx(x, y)

    def div(self, x, y):
        return -x.shape[1] * self.a**2 * self.k(x, y)


class PCIMQ(Radial):
    def __init__(self, ls, os):
        self.c, self.os = 1 / (2 * ls**2), os

    def h(self, r):
        return self.os * (1 + self.c * r * r) ** -0.5

    def h1r(self, r):
        return -self.os * self.c * (1 + self.c * r * r) ** -1.5

    def h2(self, r):
        b = 1 + self.c * r * r
        return self.os * (-self.c * b**-1.5 + 3 * self.c**2 * r * r * b**-2.5)


class RQ(Radial):
    def __init__(self, ls, os, al):
        self.c, self.os, self.al = 1 / (2 * al * ls**2), os, al

    def h(self, r):
        return self.os * (1 + self.c * r * r) ** -self.al

    def h1r(self, r):
        return -2 * self.os * self.al * self.c * (1 + self.c * r * r) ** (-self.al - 1)

    def h2(self, r):
        b = 1 + self.c * r * r
        a, c = self.al, self.c
        return self.os * (
            -2 * a * c * b ** (-a - 1) + 4 * a * (a + 1) * c * c * r * r * b ** (-a - 2)
        )


class Mat(Radial):
    def __init__(self, ls, os, p):
        self.b, self.os, self.p = math.sqrt(2 * p + 1) / ls, os, p
        self.smooth = p >= 1

    @staticmethod
    def _m(p, t):
        if p < 0:
            return np.exp(-t) / t
        tot = 0.0
        for i in range(p + 1):
            tot = tot + (
                math.factorial(p + i)
                / (math.factorial(i) * math.factorial(p - i))
                * (2 * t) ** (p - i)
            )
        return np.exp(-t) * tot * math.factorial(p) / math.factorial(2 * p)

    def h(self, r):
        return self.os**2 * self._m(self.p, self.b * r)

    def h1r(self, r):
        # M_p'(t) = -t M_{p-1}(t) / (2p-1)
        b, p = self.b, self.p
        if p == 0:
            return -self.os**2 * b * np.exp(-b * r) / r
        return -self.os**2 * b * b * self._m(p - 1, b * r) / (2 * p - 1)

    def h2(self, r):
        b, p, t = self.b, self.p, self.b * r
        if p == 0:
            return self.os**2 * b * b * np.exp(-t)
        if p == 1:
            return self.os**2 * b * b * (t - 1) * np.exp(-t)
        first = -self._m(p - 1, t) / (2 * p - 1)
        second = t * t * self._m(p - 2, t) / ((2 * p - 1) * (2 * p - 3))
        return self.os**2 * b * b * (first + second)


class Per(Radial):
    smooth = False

    def __init__(self, ls, os, p):
        self.w, self.l2, self.os = math.pi / p, ls**2, os

    def h(self, r):
        return self.os * np.exp(-2 * np.sin(self.w * r) ** 2 / self.l2)

    def h1r(self, r):
        return -2 * self.w / self.l2 * np.sin(2 * self.w * r) * self.h(r) / r

    def h2(self, r):
        a = 2 * self.w / self.l2
        s2 = np.sin(2 * self.w * r)
        return (a * a * s2 * s2 - 2 * self.w * a * np.cos(2 * self.w * r)) * self.h(r)


class Poi(Radial):
    """Poisson kernel, one-dimensional inputs only."""

    def __init__(self, idx, os):
        self.r, self.os = idx, os

    def h(self, r):
        return self.os / (1 - 2 * self.r * np.cos(r) + self.r**2)

    def gx(self, x, y):
        z = _diff(x, y)
        den = 1 - 2 * self.r * np.cos(z) + self.r**2
        return -2 * self.os * self.r * np.sin(z) / den**2

    def div(self, x, y):
        z = _diff(x, y)[..., 0]
        den = 1 - 2 * self.r * np.cos(z) + self.r**2
        return 2 * self.os * self.r * (
            np.cos(z) / den**2 - 4 * self.r * np.sin(z) ** 2 / den**3
        )


class Dot(K):
    def g(self, t, order):
        raise NotImplementedError

    def k(self, x, y):
        return self.g(x @ y.T, 0)

    def gx(self, x, y):
        return self.g(x @ y.T, 1)[..., None] * y[None, :, :]

    def gy(self, x, y):
        return self.g(x @ y.T, 1)[..., None] * x[:, None, :]

    def div(self, x, y):
        t = x @ y.T
        return x.shape[1] * self.g(t, 1) + t * self.g(t, 2)


class Lin(Dot):
    def __init__(self, os, c):
        self.os, self.c = os, c

    def g(self, t, order):
        return [self.os * t + self.c, self.os + 0 * t, 0 * t][order]


class Poly(Dot):
    def __init__(self, os, c, deg):
        self.os, self.c, self.deg = os, c, deg

    def g(self, t, order):
        b, p = t + self.c, self.deg
        if order == 0:
            return self.os * b**p
        if order == 1:
            return self.os * p * b ** (p - 1)
        return self.os * p * (p - 1) * b ** (p - 2)


class Const(K):
    ti = True

    def __init__(self, c):
        self.c = c

    def k(self, x, y):
        return np.full((len(x), len(y)), float(self.c))

    def gx(self, x, y):
        return np.zeros((len(x), len(y), x.shape[1]))

    gy = gx

    def div(self, x, y):
        return np.zeros((len(x), len(y)))


class Sum(K):
    def __init__(self, a, b):
        self.a, self.b = a, b
        self.ti, self.smooth = a.ti and b.ti, a.smooth and b.smooth

    def k(self, x, y):
        return self.a.k(x, y) + self.b.k(x, y)

    def gx(self, x, y):
        return self.a.gx(x, y) + self.b.gx(x, y)

    def gy(self, x, y):
        return self.a.gy(x, y) + self.b.gy(x, y)

    def div(self, x, y):
        return self.a.div(x, y) + self.b.div(x, y)


class Prod(Sum):
    def k(self, x, y):
        return self.a.k(x, y) * self.b.k(x, y)

    def gx(self, x, y):
        a, b = self.a, self.b
        return a.gx(x, y) * b.k(x, y)[..., None] + b.gx(x, y) * a.k(x, y)[..., None]

    def gy(self, x, y):
        a, b = self.a, self.b
        return a.gy(x, y) * b.k(x, y)[..., None] + b.gy(x, y) * a.k(x, y)[..., None]

    def div(self, x, y):
        a, b = self.a, self.b
        cross = np.sum(a.gx(x, y) * b.gy(x, y) + a.gy(x, y) * b.gx(x, y), axis=-1)
        return a.div(x, y) * b.k(x, y) + b.div(x, y) * a.k(x, y) + cross


class Pow(K):
    def __init__(self, a, p):
        self.a, self.p = a, p
        self.ti, self.smooth = a.ti, a.smooth

    def k(self, x, y):
        return self.a.k(x, y) ** self.p

    def gx(self, x, y):
        return self.p * (self.a.k(x, y) ** (self.p - 1))[..., None] * self.a.gx(x, y)

    def gy(self, x, y):
        return self.p * (self.a.k(x, y) ** (self.p - 1))[..., None] * self.a.gy(x, y)

    def div(self, x, y):
        k = self.a.k(x, y)
        out = self.p * k ** (self.p - 1) * self.a.div(x, y)
        if self.p > 1:
            dots = np.sum(self.a.gx(x, y) * self.a.gy(x, y), axis=-1)
            out = out + self.p * (self.p - 1) * k ** (self.p - 2) * dots
        return out


class Stein(K):
    """Stein kernel for a base reference and a score (n,d)->(n,d)."""

    def __init__(self, base, score):
        self.base, self.score = base, score

    def k(self, x, y):
        sx, sy = self.score(x), self.score(y)
        b = self.base
        return (
            b.div(x, y)
            + np.einsum("nd,nmd->nm", sx, b.gy(x, y))
            + np.einsum("md,nmd->nm", sy, b.gx(x, y))
            + (sx @ sy.T) * b.k(x, y)
        )


_SIMPLE = {
    "se": SE, "exp": Exp, "lap": Lap, "pcimq": PCIMQ, "rq": RQ, "mat": Mat,
    "per": Per, "poi": Poi, "lin": Lin, "poly": Poly,
}  # fmt: skip


def ref(spec):
    """Reference implementation of a kernel specification."""
    tag = spec[0]
    if tag in _SIMPLE:
        return _SIMPLE[tag](*spec[1:])
    if tag == "lper":
        pl, po, p, sl, so = spec[1:]
        return Prod(Per(pl, po, p), SE(sl, so))
    if tag in ("add", "cadd"):
        return Sum(ref(spec[1]), ref(spec[2]))
    if tag in ("mul", "cmul"):
        return Prod(ref(spec[1]), ref(spec[2]))
    if tag == "pow":
        return Pow(ref(spec[1]), spec[2])
    if tag in ("addc", "raddc"):
        return Sum(ref(spec[1]), Const(spec[2]))
    if tag in ("mulc", "rmulc"):
        return Prod(ref(spec[1]), Const(spec[2]))
    raise ValueError(tag)


def build(spec):
    """The coreax kernel of a specification, through the public constructors."""
    tag, args = spec[0], spec[1:]
    if tag == "se":
        return lib.SquaredExponentialKernel(length_scale=args[0], output_scale=args[1])
    if tag == "exp":
        return lib.ExponentialKernel(length_scale=args[0], output_scale=args[1])
    if tag == "lap":
        return lib.LaplacianKernel(length_scale=args[0], output_scale=args[1])
    if tag == "pcimq":
        return lib.PCIMQKernel(length_scale=args[0], output_scale=args[1])
    if tag == "rq":
        return lib.RationalQuadraticKernel(
            length_scale=args[0], output_scale=args[1], relative_weighting=args[2]
        )
    if tag == "mat":
        return lib.MaternKernel(
            length_scale=args[0], output_scale=args[1], degree=args[2]
        )
    if tag == "per":
        return lib.PeriodicKernel(
            length_scale=args[0], output_scale=args[1], periodicity=args[2]
        )
    if tag == "lper":
        return lib.LocallyPeriodicKernel(
            periodic_length_scale=args[0],
            periodic_output_scale=args[1],
            periodicity=args[2],
            squared_exponential_length_scale=args[3],
            squared_exponential_output_scale=args[4],
        )
    if tag == "poi":
        return lib.PoissonKernel(index=args[0], output_scale=args[1])
    if tag == "lin":
        return lib.LinearKernel(output_scale=args[0], constant=args[1])
    if tag == "poly":
        return lib.PolynomialKernel(
            output_scale=args[0], constant=args[1], degree=args[2]
        )
    if tag == "add":
        return build(args[0]) + build(args[1])
    if tag == "cadd":
        return lib.AdditiveKernel(build(args[0]), build(args[1]))
    if tag == "mul":
        return build(args[0]) * build(args[1])
    if tag == "cmul":
        return lib.ProductKernel(build(args[0]), build(args[1]))
    if tag == "pow":
        return build(args[0]) ** args[1]
    if tag == "addc":
        return build(args[0]) + args[1]
    if tag == "raddc":
        return args[1] + build(args[0])
    if tag == "mulc":
        return build(args[0]) * args[1]
    if tag == "rmulc":
        return args[1] * build(args[0])
    raise ValueError(tag)


def norm_weights(w, n):
    """Normalised float64 weights."""
    if w is None:
        return np.full(n, 1.0 / n)
    w = np.asarray(w, dtype=np.float64)
    if w.ndim == 0:
        w = np.full(n, float(w))
    return w / w.sum()


def mmd2(kern, x, y, wx=None, wy=None):
    """Squared maximum mean discrepancy."""
    x, y = arr2(x), arr2(y)
    a, b = norm_weights(wx, len(x)), norm_weights(wy, len(y))
    return float(
        a @ kern.k(x, x) @ a + b @ kern.k(y, y) @ b - 2 * a @ kern.k(x, y) @ b
    )


def mmd(kern, x, y, wx=None, wy=None):
    """Maximum mean discrepancy."""
    return math.sqrt(max(0.0, mmd2(kern, x, y, wx, wy)))


