"""Offline checkers of greedy selection traces, and helpers to run solvers on many datasets."""

import math

import numpy as np

from cxmon import gen, lib, ref

TOL = {True: 2e-11, False: 3e-5}


def to_data(x, w=None, y=None):
    """A coreax dataset in the default precision."""
    jnp = lib.jnp
    jw = w if w is None or np.ndim(w) == 0 else jnp.asarray(w, dtype=float)
    if y is None:
        return lib.Data(jnp.asarray(x, dtype=float), jw)
    return lib.SupervisedData(jnp.asarray(x, dtype=float), jnp.asarray(y, dtype=float), jw)


def indices(mon, coreset, n, size, label):
    """The indices of a coresubset as a NumPy vector, after checking they are usable."""
    raw = np.asarray(coreset.unweighted_indices)
    mon.need(raw.shape == (size,), label + ": wrong number of indices", got=raw.shape, want=size)
    mon.need(raw.dtype.kind in "iu", label + ": indices are not integers", dtype=str(raw.dtype))
    mon.need(
        bool(np.all((raw >= 0) & (raw < n))), label + ": index out of range", got=raw, n=n
    )
    return raw.astype(int)


def block(r, n):
    """A block-size setting."""
    choice = int(r.integers(7))
    pick = lambda: int(r.choice([1, 2, 3, 5, 8, n, n + 3]))  # noqa: E731
    return [None, pick(), (pick(), None), (None, pick()), (pick(), pick()), n, None][choice]


def unroll(r, bs=None, n=0, heavy=False):
    """An unroll setting (full unrolling only for few blocks: it is slow to compile)."""
    small = min(b or n for b in (bs if isinstance(bs, tuple) else (bs, bs)))
    few = n <= 4 * small
    choice = [1, 1, 2, True, (1, 2), (3, True)][int(r.integers(6))]
    if not few and choice not in (1, 2):
        choice = (1, 2) if not heavy else 1
    return choice


class Trace:
    """Result of replaying a selection trace: worst regret and smallest runner-up gap."""

    def __init__(self):
        self.regret = 0.0
        self.gap = math.inf
        self.bad = None
        self.changed = 0


def herding(kern, x, w, init, out, unique, scale=None):
    """Replay a herding refinement.

    `init` lists the member in each slot, or None for an empty one.  Returns a Trace whose
    `bad` is the first step at which an inadmissible row was chosen, and whose `regret` is the
    largest shortfall of a chosen row's objective (in float64).
    """
    n = len(x)
    a = ref.norm_weights(w, n)
    pos = a > 0
    gram = kern.k(x, x)
    mean = gram @ a
    members = list(init)
    tr = Trace()
    for i, chosen in enumerate(out):
        own = members[i]
        others = [m for j, m in enumerate(members) if j != i and m is not None]
        t = len(others) + 1
        obj = mean - gram[:, others].sum(axis=1) / t
        ok = pos.copy()
        if unique:
            ok[others] = False
        _step(tr, i, chosen, obj, ok, own, unique and own in others)
        members[i] = int(chosen)
    return tr


def stein(kp, x, w, init, out, unique, lap, logp, lam):
    """Replay a Stein thinning refinement; kp is the Stein Gramian on x."""
    n = len(x)
    pos = ref.norm_weights(w, n) > 0
    members = list(init)
    tr = Trace()
    base = np.diag(kp) + lap
    for i, chosen in enumerate(out):
        own = members[i]
        others = [m for j, m in enumerate(members) if j != i and m is not None]
        obj = -(base - lam * (i + 1) * logp + 2 * kp[:, others].sum(axis=1))
        ok = pos.copy()
        if unique:
            ok[others] = False
        _step(tr, i, chosen, obj, ok, own, unique and own in others)
        members[i] = int(chosen)
    return tr


def _step(tr, i, chosen, obj, ok, own, own_repeated):
    # a repeated initial member may keep its own place
    if not ok[chosen] and not (own_repeated and chosen == own):
        tr.bad = i if tr.bad is None else tr.bad
        return
    if not ok.any():
        return
    best = np.max(obj[ok])
    short = best - obj[chosen]
    tr.regret = max(tr.regret, short if np.isfinite(short) else np.inf)
    rest = ok.copy()
    rest[chosen] = False
    if rest.any():
        tr.gap = min(tr.gap, abs(obj[chosen] - np.max(obj[rest])))
    if own_repeated:
        tr.gap = 0.0
    if own is not None and own != chosen:
        tr.changed += 1


def init_slots(init, size):
    """Slots of a refinement from an initial coresubset."""
    return list(init) + [None] * (size - len(init))


def objective_scale(kern, x):
    """Magnitude of the kernel on the data."""
    return max(float(np.max(np.abs(kern.k(x, x)))), 1e-30)
