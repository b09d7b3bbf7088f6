"""Thin access to the code under test."""
import jax
import jax.numpy as jnp
import numpy as np

import parametricmatrixmodels as pmm  # noqa: F401
from parametricmatrixmodels import modules as M  # noqa: F401

from . import gen
from .core import expect


def to_jax(x, dtype=None):
    return gen.tmap(lambda a: jnp.asarray(a, dtype=dtype), x)


def shapes(x):
    """Shapes without the batch axis; same containers."""
    return gen.tmap(lambda a: tuple(int(d) for d in a.shape[1:]), x)


def apply(module, data, seed=0, training=False, params=None):
    """Compile a bare module for the data and evaluate it (not jitted)."""
    data = to_jax(data)
    module.compile(jax.random.key(seed), shapes(data))
    if params is not None:
        module.set_params(params)
    return call(module, data, seed, training)


def call(module, data, seed=0, training=False):
    """Evaluate a ready module, as one compiled function (the project always
    evaluates modules inside jit; op-by-op evaluation is only slower)."""
    key = jax.random.key(seed)
    state = module.get_state()

    def f(d):
        return module(d, training=training, state=state, rng=key)[0]

    return jax.jit(f)(data)


def np_tree(x):
    return gen.tmap(np.asarray, x)


def check_shapes(declared, out, what="declared output shape"):
    """declared: DataShape; out: data with a batch axis."""
    got = shapes(out)
    expect(
        norm_shape(declared) == norm_shape(got),
        f"{what} {declared!r} differs from the shape of the output {got!r}",
    )


def norm_shape(s):
    """Comparable form of a PyTree of shapes (containers kept, int types
    normalised)."""
    if isinstance(s, dict):
        return {k: norm_shape(v) for k, v in s.items()}
    if isinstance(s, (list, tuple)):
        if all(isinstance(i, (int, np.integer)) for i in s) and not isinstance(s, list):
            return ("shape", tuple(int(i) for i in s))
        return (type(s).__name__, [norm_shape(v) for v in s])
    return s
