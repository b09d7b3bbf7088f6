"""Modules a user could write: with state, with random numbers, order
sensitive, and cheap to compile. Importable, so models holding them can be
saved and loaded."""
import json

import jax
import jax.numpy as jnp
import numpy as np

from parametricmatrixmodels.modules import BaseModule

from . import gen


class _User(BaseModule):
    __version__ = "0.1.0"

    def __init__(self):
        self.ready = False

    def is_ready(self):
        return self.ready

    def compile(self, rng, input_shape):
        self.ready = True

    def get_output_shape(self, input_shape):
        return input_shape

    def get_hyperparameters(self):
        return {"ready": self.ready}

    def get_params(self):
        return ()

    def set_params(self, params):
        pass


class Scale(_User):
    """x -> a x + c x^2 with trainable scalars; order sensitive."""

    def __init__(self, a=None, c=None):
        self.a, self.c = a, c
        self.w = None

    def is_ready(self):
        return self.w is not None

    def compile(self, rng, input_shape):
        if self.w is None:
            self.w = (jnp.asarray([1.0 if self.a is None else self.a]),
                      jnp.asarray([0.1 if self.c is None else self.c]))

    def _get_callable(self):
        def f(params, data, training, state, rng):
            return jax.tree.map(lambda x: params[0] * x + params[1] * x * x, data), state

        return f

    def get_hyperparameters(self):
        return {"a": self.a, "c": self.c}

    def get_params(self):
        return () if self.w is None else self.w

    def set_params(self, params):
        self.w = None if len(params) == 0 else params


class Counter(_User):
    """Keeps the number of calls (int) and a running sum of the batch means of
    the first leaf (float) in its state, and adds a multiple of the count to
    the data."""

    def __init__(self, weight=0.0):
        self.weight = weight
        self.count = None
        self.total = None

    def is_ready(self):
        return self.count is not None

    def compile(self, rng, input_shape):
        if self.count is None:
            self.count = jnp.zeros((1,), dtype=jnp.int32)
            self.total = jnp.zeros((1,))

    def _get_callable(self):
        w = self.weight

        def f(params, data, training, state, rng):
            n, t = state["n"], state["t"]
            x0 = jax.tree.leaves(data)[0]
            out = jax.tree.map(lambda x: x + (w * n[0]).astype(x.dtype), data)
            new = {"n": n + 1, "t": (t + jnp.mean(jnp.real(x0))).astype(t.dtype)}
            return out, new

        return f

    def get_hyperparameters(self):
        return {"weight": self.weight}

    def get_state(self):
        return () if self.count is None else {"n": self.count, "t": self.total}

    def set_state(self, state):
        if isinstance(state, dict):
            self.count, self.total = state["n"], state["t"]


class Noise(_User):
    """Adds random numbers drawn from the key it is given."""

    def __init__(self, scale=0.1, only_training=False):
        self.scale, self.only_training = scale, only_training
        self.ready = False

    def _get_callable(self):
        s, only = self.scale, self.only_training

        def f(params, data, training, state, rng):
            if only and not training:
                return data, state
            lv, td = jax.tree.flatten(data)
            ks = jax.random.split(rng, len(lv))
            # the same noise for every sample: results do not depend on the
            # batch a sample is in
            out = [x + s * jax.random.normal(k, x.shape[1:]).astype(x.dtype)
                   for k, x in zip(ks, lv)]
            return jax.tree.unflatten(td, out), state

        return f

    def get_hyperparameters(self):
        return {"ready": self.ready, "scale": self.scale, "only_training": self.only_training}


class TrainShift(_User):
    """Adds 1 in training mode only."""

    def _get_callable(self):
        def f(params, data, training, state, rng):
            return (jax.tree.map(lambda x: x + 1, data) if training else data), state

        return f


class CScale(_User):
    """x -> Re(z) x + Im(z) x^2 with one trainable complex number z."""

    def __init__(self, re=1.0, im=0.1):
        self.re, self.im = re, im
        self.z = None

    def is_ready(self):
        return self.z is not None

    def compile(self, rng, input_shape):
        if self.z is None:
            self.z = jnp.asarray([complex(self.re, self.im)])

    def _get_callable(self):
        def f(params, data, training, state, rng):
            return jax.tree.map(lambda x: params.real * x + params.imag * x * x, data), state

        return f

    def get_hyperparameters(self):
        return {"re": self.re, "im": self.im}

    def get_params(self):
        return () if self.z is None else self.z

    def set_params(self, params):
        self.z = None if isinstance(params, tuple) else params


class Probe(_User):
    """Wraps the data as {"n": number of training calls so far, "t": training
    flag, "y": data}."""

    def __init__(self):
        self.n = None

    def is_ready(self):
        return self.n is not None

    def compile(self, rng, input_shape):
        if self.n is None:
            self.n = jnp.zeros((1,), dtype=jnp.int32)

    def get_output_shape(self, input_shape):
        return {"n": (1,), "t": (1,), "y": input_shape}

    def get_hyperparameters(self):
        return {}

    def _get_callable(self):
        def f(params, data, training, state, rng):
            x = jax.tree.leaves(data)[0]
            one = jnp.ones((x.shape[0], 1))
            out = {"n": one * state[0], "t": one * float(training), "y": data}
            return out, state + (1 if training else 100000)

        return f

    def get_state(self):
        return () if self.n is None else self.n

    def set_state(self, state):
        if not isinstance(state, tuple):
            self.n = state


class Number(_User):
    """Adds the number of samples seen before (by state and position in the
    batch); the state also keeps an order sensitive checksum. Neither depends
    on how the samples are divided into batches."""

    def __init__(self):
        self.n = None
        self.h = None

    def is_ready(self):
        return self.n is not None

    def compile(self, rng, input_shape):
        if self.n is None:
            self.n = jnp.zeros((1,), dtype=jnp.int32)
            self.h = jnp.zeros((1,))

    def _get_callable(self):
        def f(params, data, training, state, rng):
            n, h = state
            b = data.shape[0]
            pos = n[0] + jnp.arange(b)
            out = data + pos.reshape((b,) + (1,) * (data.ndim - 1)).astype(data.dtype)
            w = jnp.exp(-0.3 * jnp.arange(b - 1, -1, -1))
            hx = jnp.sum(w * jnp.real(data).reshape(b, -1).sum(1)) + h[0] * jnp.exp(-0.3 * b)
            return out, (n + b, (h * 0 + hx).astype(h.dtype))

        return f

    def get_hyperparameters(self):
        return {}

    def get_state(self):
        return () if self.n is None else (self.n, self.h)

    def set_state(self, state):
        if len(state):
            self.n, self.h = state


class Poly(_User):
    """PyTree of real data -> PyTree of arrays: every entry of the output is a
    quadratic form without mixed terms in all the input features."""

    def __init__(self, outs=None, seed=0, mag=1.0):
        # (as text: dictionaries are not saved by the default implementation)
        self.outs = outs if outs is None or isinstance(outs, str) else json.dumps(outs)
        self.seed, self.mag = seed, mag
        self.p = None

    def is_ready(self):
        return self.p is not None

    def compile(self, rng, input_shape):
        if self.p is not None:
            return
        d = sum(int(np.prod(s)) for s in jax.tree.leaves(
            input_shape, is_leaf=lambda s: isinstance(s, tuple) and all(isinstance(i, int) for i in s)))
        self.p = [
            {"v": jnp.asarray(0.3 * self.mag * gen.arr(self.seed + 2 * i + 1, [*s["s"], d])),
             "w": jnp.asarray(self.mag * gen.arr(self.seed + 2 * i, [*s["s"], d]))}
            for i, (_, s) in enumerate(gen.leaf_specs(json.loads(self.outs)))]

    def get_output_shape(self, input_shape):
        return gen.build(json.loads(self.outs), lambda s, p: tuple(s["s"]))

    def _get_callable(self):
        order = {p: i for i, (p, _) in enumerate(gen.leaf_specs(json.loads(self.outs)))}
        outs = json.loads(self.outs)

        def f(params, data, training, state, rng):
            z = jnp.concatenate([x.reshape(x.shape[0], -1) for x in jax.tree.leaves(data)], axis=1)
            y = [jnp.tensordot(z, q["w"], axes=(1, -1)) + jnp.tensordot(z * z, q["v"], axes=(1, -1))
                 for q in params]
            return gen.build(outs, lambda s, p: y[order[p]]), state

        return f

    def get_hyperparameters(self):
        return {"outs": self.outs, "seed": self.seed, "mag": self.mag}

    def get_params(self):
        return () if self.p is None else self.p

    def set_params(self, params):
        self.p = None if isinstance(params, tuple) and not params else params


class Gain(_User):
    """x -> g x, with a fixed number that can be changed between
    compilations."""

    def __init__(self, g=1.0):
        self.g, self.ready = g, False

    def _get_callable(self):
        g = float(self.g)

        def f(params, data, training, state, rng):
            return jax.tree.map(lambda x: g * x, data), state

        return f

    def get_hyperparameters(self):
        return {"ready": self.ready, "g": self.g}


class Draw(_User):
    """Draws a random number per call from the key it is given, adds it to the
    data and keeps the numbers drawn in training mode in its state."""

    def __init__(self, size=64):
        self.size, self.n = size, None

    def is_ready(self):
        return self.n is not None

    def compile(self, rng, input_shape):
        if self.n is None:
            self.n = jnp.zeros((1,), dtype=jnp.int32)
            self.d = jnp.zeros((self.size,))

    def _get_callable(self):
        size = self.size

        def f(params, data, training, state, rng):
            n, d = state
            r = jax.random.normal(rng, (), dtype=jnp.float64)
            d = d.at[n[0] % size].set(r.astype(d.dtype))
            return jax.tree.map(lambda x: x + 0.1 * r, data), (n + 1, d)

        return f

    def get_hyperparameters(self):
        return {"size": self.size}

    def get_state(self):
        return () if self.n is None else (self.n, self.d)

    def set_state(self, state):
        if len(state):
            self.n, self.d = state


class RandGain(_User):
    """x -> w (1 + u) x with u drawn from the key it is given; three times as
    much in training mode."""

    def __init__(self, w=1.0):
        self.w = jnp.asarray([w])

    def is_ready(self):
        return True

    def _get_callable(self):
        def f(params, data, training, state, rng):
            u = jax.random.uniform(rng, (), dtype=jnp.float64)
            return jax.tree.map(lambda x: (3.0 if training else 1.0) * params[0] * (1 + u) * x, data), state

        return f

    def get_num_trainable_floats(self):
        return 1

    def get_params(self):
        return self.w

    def set_params(self, params):
        self.w = params

    def get_hyperparameters(self):
        return {}


class Upgraded(_User):
    """x -> q x; another version of this module kept the root of q."""

    def __init__(self, q=None):
        self.q = q
        self.n = None

    def is_ready(self):
        return self.n is not None

    def compile(self, rng, input_shape):
        self.n = jnp.asarray([3.0])

    def _get_callable(self):
        q = self.q

        def f(params, data, training, state, rng):
            return jax.tree.map(lambda x: q * x, data), state

        return f

    def get_hyperparameters(self):
        return {"q": self.q}

    def get_state(self):
        return () if self.n is None else (self.n,)

    def set_state(self, s):
        self.n = s[0] if len(s) else None

    def upgrade(self, data):
        if "sqrt" in data["hyperparameters"]:
            data = {**data, "hyperparameters": {"q": data["hyperparameters"]["sqrt"] ** 2}}
        return data
