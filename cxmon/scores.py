"""Score functions as (jax function of a point, NumPy function of rows, diagonal Jacobian)."""

import numpy as np

from cxmon import gen, lib

NAMES = ["normal", "gauss", "mixture", "student", "linear", "const", "saddle", "saddle", "saddle"]


class Score:
    """A score: `.jax(x)` for one point, `.np(X)` for rows, `.diag(X)` for d s_i / d x_i."""

    def __init__(self, name, jax_fn, np_fn, diag_fn):
        self.name, self.jax, self.np, self.diag = name, jax_fn, np_fn, diag_fn

    def lap(self, x):
        """Positive part Laplacian of the log-density."""
        return np.clip(self.diag(x), 0.0, None).sum(axis=1)


def make(r, name, d):
    """A random score function of the given kind."""
    if name == "normal":
        return Score(name, lambda x: -x, lambda x: -x, lambda x: -np.ones_like(x))
    if name == "gauss":
        mu = gen.f32(r.normal(size=d))
        prec = gen.f32(r.uniform(0.3, 2, size=d))
        return Score(
            name,
            lambda x: -(x - lib.jnp.asarray(mu)) * lib.jnp.asarray(prec),
            lambda x: -(x - mu) * prec,
            lambda x: -prec + 0 * x,
        )
    if name == "linear":
        a = gen.f32(r.normal(size=(d, d)))
        return Score(name, lambda x: lib.jnp.asarray(a) @ x, lambda x: x @ a.T, lambda x: np.diag(a) + 0 * x)
    if name == "saddle":
        # Curvature of either sign, in every coordinate, depending on the position
        a = gen.f32(r.choice([-1, 1], size=d) * r.uniform(0.3, 1.5, size=d))
        b = gen.f32(r.choice([-1, 1], size=d) * r.uniform(0.5, 3, size=d))
        return Score(
            name,
            lambda x: lib.jnp.asarray(a) * x + lib.jnp.asarray(b) * lib.jnp.sin(x),
            lambda x: a * x + b * np.sin(x),
            lambda x: a + b * np.cos(x),
        )
    if name == "const":
        c = gen.f32(r.normal(size=d))
        return Score(name, lambda x: lib.jnp.asarray(c) + 0 * x, lambda x: c + 0 * x, lambda x: 0 * x)
    if name == "student":
        nu = 3.0
        return Score(
            name,
            lambda x: -(nu + d) * x / (nu + lib.jnp.dot(x, x)),
            lambda x: -(nu + d) * x / (nu + np.sum(x * x, axis=1, keepdims=True)),
            lambda x: -(nu + d) * (1 / (nu + np.sum(x * x, 1, keepdims=True)) - 2 * x * x / (nu + np.sum(x * x, 1, keepdims=True)) ** 2),
        )
    if name == "mixture":
        mus = gen.f32(1.5 * r.normal(size=(3, d)))

        def jscore(x):
            jnp = lib.jnp
            diff = jnp.asarray(mus) - x
            logs = -0.5 * jnp.sum(diff * diff, axis=1)
            p = jnp.exp(logs - jnp.max(logs))
            return (p / p.sum()) @ diff

        ref_ = kde(mus, None, 1.0)
        return Score(name, jscore, ref_.np, ref_.diag)
    raise ValueError(name)


def kde(train, w, ls):
    """Score of the weighted isotropic Gaussian kernel density estimate (NumPy only)."""
    train = np.asarray(train, dtype=np.float64)
    w = np.ones(len(train)) if w is None else np.asarray(w, dtype=np.float64)

    def probs(x):
        diff = train[None] - x[:, None]
        with np.errstate(divide="ignore"):
            logs = np.log(w)[None] - 0.5 * np.sum(diff * diff, axis=-1) / ls**2
        p = np.exp(logs - logs.max(axis=1, keepdims=True))
        return p / p.sum(axis=1, keepdims=True), diff

    def score(x):
        p, diff = probs(np.asarray(x, dtype=np.float64))
        return np.einsum("nk,nkd->nd", p, diff) / ls**2

    def diag(x):
        p, diff = probs(np.asarray(x, dtype=np.float64))
        m1 = np.einsum("nk,nkd->nd", p, diff)
        m2 = np.einsum("nk,nkd->nd", p, diff * diff)
        return (m2 - m1 * m1) / ls**4 - 1 / ls**2

    return Score("kde", None, score, diag)
