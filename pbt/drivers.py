"""Whole-history drivers of programs (catalogue chains or the named larger programs), both backends."""
import jax
import numpy as np
from hypothesis import strategies as st

import catalog
import specials
from run import cached


def hk_fun(prog):
    return specials.HK[prog] if isinstance(prog, str) else catalog.hk_program(prog)


def fx_mod(prog):
    return specials.FX[prog]() if isinstance(prog, str) else catalog.fx_program(prog)


class HkRun:
    """everything is rebuilt by every instance: nothing can hide in a python object"""

    def __init__(self, prog):
        from wax.unroll import unroll_transform_with_state

        u = unroll_transform_with_state(hk_fun(prog))
        self.init = u.init
        self.apply = jax.jit(lambda p, s, x: u.apply(p, s, None, x))


class FxRun:
    def __init__(self, prog):
        from wax.flax.core.unroll import flax_unroll_transform

        from flax.core import freeze

        u = flax_unroll_transform(fx_mod(prog))
        self.init = u.init
        run = jax.jit(lambda p, s, x: u.apply(p, s, None, x))
        # flax hands states out as frozen dicts and takes them back as such
        self.apply = lambda p, s, x: run(p, freeze(s), x)


RUN = {"haiku": HkRun, "flax": FxRun}
one_pass = cached(lambda b, prog: RUN[b](prog), maxsize=64)
in_chunks = cached(lambda b, prog, n: RUN[b](prog), maxsize=64)
FX_OPS = [k for k in catalog.OPTS]

hk_special = st.sampled_from(sorted(specials.HK))
fx_special = st.sampled_from(sorted(specials.FX))
hk_prog = st.one_of(
    catalog.program(hk=True, max_ops=3), catalog.program(hk=True, max_ops=2), hk_special
)
fx_prog = st.one_of(
    catalog.program(hk=False, max_ops=3), catalog.program(hk=False, max_ops=2), fx_special
)


def plain(s):
    return {k: plain(v) for k, v in s.items()} if hasattr(s, "items") else s


def nondivergent(y):
    return all(np.abs(np.nan_to_num(np.asarray(v, np.float64))).max(initial=0) < 1e5 for v in jax.tree_util.tree_leaves(y))
