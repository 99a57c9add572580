"""Lazy access to jax and to coreax's public API (only workers may import them)."""

import importlib

_WHERE = {
    "jax": ["jax"],
    "jnp": ["jax.numpy"],
    "jr": ["jax.random"],
    "eqx": ["equinox"],
    "optax": ["optax"],
}
_MODULES = [
    "coreax.data",
    "coreax.coreset",
    "coreax.kernels",
    "coreax.solvers",
    "coreax.metrics",
    "coreax.weights",
    "coreax.least_squares",
    "coreax.approximation",
    "coreax.score_matching",
    "coreax.util",
    "coreax.benchmark_util",
    "coreax.kernels.base",
    "coreax.kernels.util",
    "coreax.solvers.base",
    "coreax",
]


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    if name in _WHERE:
        value = importlib.import_module(_WHERE[name][0])
    else:
        for mod in _MODULES:
            module = importlib.import_module(mod)
            if hasattr(module, name):
                value = getattr(module, name)
                break
        else:
            raise AttributeError(name)
    globals()[name] = value
    return value
