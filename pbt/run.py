"""Plain reference drivers (jax.lax.scan / python loops), independent of wax.unroll.

Compiled functions are cached per configuration; the cache is bounded.
"""
import functools
import json

import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np
from jax import lax

KEY = np.array([0, 7], dtype=np.uint32)


def key():
    return jnp.asarray(KEY)


def first(xs):
    return jax.tree_util.tree_map(lambda a: a[0], xs)


def rest(xs):
    return jax.tree_util.tree_map(lambda a: a[1:], xs)


def to_np(tree):
    return jax.tree_util.tree_map(np.asarray, tree)


def length(xs):
    return len(jax.tree_util.tree_leaves(xs)[0])


def hk_scan(fun):
    """fun(*args) (haiku impure) -> jitted run(*xs) -> (outs, final_state, params)."""
    f = hk.transform_with_state(fun)

    @jax.jit
    def run(*xs):
        params, state = f.init(key(), *first(xs))

        def body(s, x):
            y, s = f.apply(params, s, key(), *x)
            return s, y

        state, ys = lax.scan(body, state, xs)
        return ys, state, params

    return run


def fx_scan(make):
    """make() -> flax module; every observation is consumed exactly once.

    flax's init already runs the first step, so the first output is the one of
    init_with_output and the scan covers the others.
    """
    m = make()

    @jax.jit
    def run(*xs):
        y0, var = m.init_with_output(key(), *first(xs))
        var = dict(var)
        params = var.pop("params", {})

        def body(s, x):
            y, s = m.apply({"params": params, **s}, *x, mutable=list(s))
            return dict(s), y

        state, ys = lax.scan(body, var, rest(xs))
        ys = jax.tree_util.tree_map(lambda a, b: jnp.concatenate([jnp.asarray(a)[None], b]), y0, ys)
        return ys, state, params

    return run


def cached(builder, maxsize=256):
    """builder(*json-able config) with an LRU cache keyed by the JSON text."""

    @functools.lru_cache(maxsize=maxsize)
    def get(text):
        return builder(*json.loads(text))

    def call(*config):
        return get(json.dumps(config, sort_keys=True))

    return call
