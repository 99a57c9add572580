"""Every public coresubset solver, in hostile but feasible configurations."""

import math

import numpy as np

from cxmon import gen, lib, ref

NAMES = [
    "random", "random-weighted", "random-replace", "herding", "herding-repeat", "herding-prob", "stein", "stein-repeat",
    "rpc", "rpc-repeat", "gkp", "gkp-repeat", "gkp-batch", "kt", "compress", "mr-herding", "mr-stein", "mr-random",
    "caratheodory", "tree", "iterative",
]  # fmt: skip
UNIQUE = ["random", "random-weighted", "herding", "herding-prob", "stein", "rpc", "gkp", "gkp-batch", "kt", "compress",
          "mr-herding", "mr-stein", "mr-random", "iterative"]  # fmt: skip
SUPERVISED = ("gkp", "gkp-repeat", "gkp-batch")
SLOW = ("kt", "compress", "mr-herding", "mr-stein", "stein", "stein-repeat")
FAMS = ["se", "pcimq", "rq", "mat", "lap", "exp", "lin"]


def power4(n):
    p = 0
    while 4 ** (p + 1) <= n:
        p += 1
    return p


def max_size(name, n, n_pos):
    """Largest feasible coreset_size."""
    if name == "compress":
        return min(n, 4 ** power4(n))
    if name in ("random", "random-replace", "rpc", "rpc-repeat", "gkp", "gkp-repeat", "gkp-batch", "kt"):
        return n
    return n_pos


def make(r, name, n, size, ls, key=None, fam=None):
    """A solver, the number of indices it returns (None: decided by the data) and a description."""
    jr = lib.jr
    key = jr.key(gen.seed(r)) if key is None else key
    fam = fam or FAMS[int(r.integers(len(FAMS)))]
    spec = gen.kernel(r, fam, ls)
    info = {"solver": name, "size": size, "kernel": spec}
    kern = ref.build(spec)
    block = [None, 1, 3, n + 2][int(r.integers(4))]
    if name.startswith("random"):
        solver = lib.RandomSample(
            coreset_size=size, random_key=key, weighted=name == "random-weighted", unique=name != "random-replace"
        )
    elif name == "iterative":
        solver = lib.IterativeKernelHerding(
            num_iterations=int(r.integers(1, 4)), coreset_size=size, kernel=kern, probabilistic=bool(r.integers(2)),
            temperature=0.05, random_key=key,
        )  # fmt: skip
    elif name in ("herding", "herding-repeat", "herding-prob"):
        extra = {"probabilistic": True, "temperature": 0.1, "random_key": key} if name == "herding-prob" else {}
        solver = lib.KernelHerding(
            coreset_size=size, kernel=kern, unique=name != "herding-repeat", block_size=block, **extra
        )
    elif name in ("stein", "stein-repeat"):
        spec = gen.kernel(r, str(r.choice(["se", "pcimq", "rq"])), ls)
        info["kernel"] = spec
        reg = bool(r.integers(2))
        info["regularise"] = reg
        solver = lib.SteinThinning(
            coreset_size=size, kernel=ref.build(spec), unique=name == "stein", regularise=reg, block_size=block
        )
    elif name in ("rpc", "rpc-repeat"):
        solver = lib.RPCholesky(coreset_size=size, random_key=key, kernel=kern, unique=name == "rpc")
    elif name in SUPERVISED:
        batch = {}
        if name == "gkp-batch":
            batch = {"candidate_batch_size": int(r.integers(1, n + 1)), "loss_batch_size": int(r.integers(1, n + 1))}
        info.update(batch)
        solver = lib.GreedyKernelPoints(
            coreset_size=size, random_key=key, feature_kernel=kern, regularisation_parameter=float(r.choice([1e-6, 1e-2])),
            unique=name != "gkp-repeat", **batch,
        )  # fmt: skip
    elif name == "kt":
        spec_s = gen.kernel(r, "se", ls)
        solver = lib.KernelThinning(
            coreset_size=size, kernel=kern, random_key=key, delta=0.1, sqrt_kernel=ref.build(spec_s)
        )
    elif name == "compress":
        p = power4(n)
        low = 0
        while 2**low * 2**p < size:
            low += 1
        g = int(r.integers(low, p + 1))
        info["g"] = g
        solver = lib.CompressPlusPlus(
            coreset_size=size, g=g, kernel=kern, random_key=key, delta=0.1, sqrt_kernel=ref.build(gen.kernel(r, "se", ls))
        )
    elif name.startswith("mr-"):
        leaf = size + int(r.integers(1, max(2, n // 2)))
        info["leaf_size"] = leaf
        if name == "mr-random":
            base = lib.RandomSample(coreset_size=size, random_key=key, weighted=True)
        elif name == "mr-herding":
            base = lib.KernelHerding(coreset_size=size, kernel=kern)
        else:
            spec = gen.kernel(r, "se", ls)
            info["kernel"] = spec
            base = lib.SteinThinning(coreset_size=size, kernel=ref.build(spec), regularise=False)
        solver = lib.MapReduce(base_solver=base, leaf_size=leaf)
    elif name in ("caratheodory", "tree"):
        mode = str(r.choice(["implicit-explicit", "implicit"]))
        info["mode"] = mode
        cls = lib.CaratheodoryRecombination if name == "caratheodory" else lib.TreeRecombination
        solver = cls(mode=mode)
    else:
        raise ValueError(name)
    return solver, info
