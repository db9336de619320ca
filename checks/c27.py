"""C27: modules evaluated at externally supplied parameters; partitions of parameter trees."""
import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np
from haiku.data_structures import merge, partition, to_mutable_dict
from hypothesis import strategies as st

import catalog
from common import Untouched, history, same, tree_close
from harness import Registry
from run import key

R = Registry(
    "C27",
    rule="both supplied and kept parameters exist, or the supplied values change along the history of a model with memory",
    assumptions=[
        "all the parameters selected by the predicate are supplied (haiku); parameter trees hold no empty groups",
        "models initialise their parameters deterministically",
    ],
)

PRED = {
    "all": lambda m, n, p: True,
    "none": lambda m, n, p: False,
    "w": lambda m, n, p: n == "w",
    "b": lambda m, n, p: n == "b",
    "module": lambda m, n, p: "affine" in m,
    "ewma": lambda m, n, p: "ewma" in m.lower(),
    "vector": lambda m, n, p: p.ndim > 0,
    "big": lambda m, n, p: p.size > 3,
}


class Affine(hk.Module):
    def __init__(self, k, name=None):
        super().__init__(name=name)
        self.k = k

    def __call__(self, x):
        w = hk.get_parameter("w", x.shape, init=hk.initializers.Constant(1.0 + 0.25 * self.k))
        b = hk.get_parameter("b", [], init=hk.initializers.Constant(0.5 * self.k))
        return w * x + b


class Cumul(hk.Module):
    """a parameter and a state in the same module"""

    def __call__(self, x):
        w = hk.get_parameter("w", [], init=hk.initializers.Constant(0.5))
        s = hk.get_state("s", x.shape, init=jnp.zeros)
        s = w * s + jnp.nan_to_num(x)
        hk.set_state("s", s)
        return s


def model(layers):
    def fun(x):
        for k in layers:
            if k == "affine":
                x = Affine(len(layers))(x)
            elif k == "cumul":
                x = Cumul()(x)
            else:
                x = catalog.hk_apply(k, x)[1]
        return x

    return fun


LAYER = st.one_of(
    st.sampled_from(["affine", "cumul"]), st.sampled_from(["affine", "cumul"]),
    catalog.op(["ewma", "buffer", "lag", "diff", "ffill", "rolling", "ewmvar"], hk=True).map(list),
)
CASE = st.fixed_dictionaries(dict(
    layers=st.lists(LAYER, min_size=1, max_size=3).map(lambda k: k + ['affine']), pred=st.sampled_from(sorted(PRED) + ["w", "b", "module", "vector"]),
    x=history(lengths=(2, 4, 9), scales=(1,)), moves=st.lists(st.sampled_from([0.0, 0.125, -0.25, 0.5]), min_size=3, max_size=3),
    two=st.booleans(),
))


def moved(tree, d):
    return jax.tree_util.tree_map(lambda v: v + jnp.asarray(d, v.dtype), tree)


@R.facet("supplied-parameters", CASE, quick=160, thorough=2500, weight=4, secs=70)
def supplied(c):
    from wax.modules import UpdateParams
    from wax.modules.update_params import get_init_params

    fun, pred = model(c["layers"]), PRED[c["pred"]]
    x = np.array(c["x"], np.float32)
    tf = hk.transform_with_state(fun)
    params, state = tf.init(key(), x[0])
    train, kept = partition(pred, params)
    train = to_mutable_dict(train)

    def outer(p, x):
        if c["two"]:
            a, b = UpdateParams(fun, pred, name="one"), UpdateParams(fun, pred, name="two")
            return a(p, x), b(p, -x), get_init_params(fun, x, params_predicate=pred)
        return UpdateParams(fun, params_predicate=pred)(p, x), None, get_init_params(fun, x, params_predicate=pred)

    up = hk.transform_with_state(outer)
    kwargs = [moved(train, c["moves"][t % 3]) for t in range(len(x))]
    p0, s0 = up.init(key(), kwargs[0], x[0])
    assert not p0, f"the wrapped parameters became parameters of the program: {p0}"
    run, ref = jax.jit(up.apply), jax.jit(tf.apply)
    s, r1, r2 = s0, state, state
    n_train = len(jax.tree_util.tree_leaves(train))
    n_kept = len(jax.tree_util.tree_leaves(kept))
    for t in range(len(x)):
        (a, b, init_params), s = run(p0, s, None, kwargs[t], x[t])
        full = merge(kwargs[t], kept)
        ea, r1 = ref(full, r1, None, x[t])
        same(a, ea, f"output of step {t}")
        if c["two"]:
            eb, r2 = ref(full, r2, None, -x[t])
            same(b, eb, f"output of the second instance at step {t}")
        assert jax.tree_util.tree_structure(to_mutable_dict(init_params)) == jax.tree_util.tree_structure(train)
        tree_close(to_mutable_dict(init_params), train, what="initial parameters")
    if n_train and n_kept:
        return "supplied and kept parameters"
    if n_train and len(set(c["moves"][: len(x)])) > 1 and jax.tree_util.tree_leaves(state):
        return "parameters change along a history with memory"


@R.facet("supplied-gradients", CASE, quick=30, thorough=500, weight=4, secs=60)
def gradients(c):
    """differentiating through the supplied parameters = differentiating the plain model"""
    from wax.modules import UpdateParams

    fun, pred = model(c["layers"]), PRED[c["pred"]]
    x = np.nan_to_num(np.array(c["x"], np.float32))
    tf = hk.transform_with_state(fun)
    params, state = tf.init(key(), x[0])
    train, kept = partition(pred, params)
    train = moved(to_mutable_dict(train), c["moves"][0])
    up = hk.transform_with_state(lambda p, x: UpdateParams(fun, params_predicate=pred)(p, x))
    p0, s0 = up.init(key(), train, x[0])

    def loss(apply, s):
        out = 0.0
        for t in range(len(x)):
            y, s = apply(s, x[t])
            out += jnp.sum(jnp.nan_to_num(y) ** 2)
        return out

    a = jax.jit(jax.grad(lambda p: loss(lambda s, v: up.apply(p0, s, None, p, v), s0)))(train)
    b = jax.jit(jax.grad(lambda p: loss(lambda s, v: tf.apply(merge(p, kept), s, None, v), state)))(train)
    for u, v in zip(jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b)):
        np.testing.assert_allclose(u, v, rtol=1e-4, atol=1e-4 * (1 + np.abs(np.nan_to_num(v)).max(initial=0)))
    return "supplied and kept parameters" if jax.tree_util.tree_leaves(train) and jax.tree_util.tree_leaves(kept) else None


# ---------------------------------------------------------------- flax
NAME = st.sampled_from(["w", "b", "affine", "ewma_0", "kernel", "EWMA", "linear/~/x", "a/b", "a"])
LEAF = st.lists(st.integers(0, 3), max_size=2)


@st.composite
def TREE(draw, depth=3):
    names = draw(st.lists(NAME, min_size=1, max_size=4, unique=True))
    return {k: draw(TREE(depth=depth - 1)) if depth and draw(st.integers(0, 1)) else draw(LEAF) for k in names}


def arrays(t, n=None):
    n = n if n is not None else [0]
    if isinstance(t, dict):
        return {k: arrays(v, n) for k, v in t.items()}
    n[0] += 1
    return np.arange(int(np.prod(t)), dtype=np.float32).reshape(t) + n[0] - 2


def paths(t, path=()):
    if isinstance(t, dict):
        for k, v in t.items():
            yield from paths(v, path + (k,))
    else:
        yield path, t


FXPRED = {
    "all": lambda m, n, p: True,
    "none": lambda m, n, p: False,
    "w": lambda m, n, p: n == "w",
    "module": lambda m, n, p: m == "affine",
    "name-or-module": lambda m, n, p: n == "b" or m == "EWMA",
    "vector": lambda m, n, p: p.ndim > 0,
    "zero": lambda m, n, p: bool(np.any(p == 0)),
}


@R.facet("partition-and-merge", st.fixed_dictionaries(dict(
    tree=st.one_of(TREE(), TREE(), LEAF), pred=st.sampled_from(sorted(FXPRED) + ["default"]), jax=st.booleans(),
)), quick=600, thorough=15000)
def partition_merge(c):
    from wax.flax.modules.update_params import UpdateParams, create_update_params, merge_nested

    tree = arrays(c["tree"])
    if c["jax"]:
        tree = jax.tree_util.tree_map(jnp.asarray, tree)
    pred = FXPRED.get(c["pred"])
    m = create_update_params(lambda x: x, pred) if c["pred"] in ("w", "all") else UpdateParams(fun=lambda x: x, predicate=pred)
    if not isinstance(tree, dict):
        want = pred is None or pred("", "", tree)
        a, b = m.partition_params(tree)
        assert (a if want else b) is tree and (b if want else a) == {}, (a, b)
        back = m.merge_params(a, b)
        assert back is tree, f"merging gave {back}"
        return None
    before = dict(paths(tree))
    keep = Untouched(tree)
    a, b = m.partition_params(tree)
    parts = Untouched(a, b)
    pa, pb = dict(paths(a)), dict(paths(b))
    want = {p for p, v in before.items() if pred is None or pred(p[0], p[-1], v)}
    assert set(pa) == want, f"trainable {sorted(pa)}, expected {sorted(want)}"
    assert set(pb) == set(before) - want, f"not trainable {sorted(pb)}"
    for p, v in list(pa.items()) + list(pb.items()):
        assert v is before[p] or np.array_equal(v, before[p]), f"value of {p}"
    keep.check("the tree")
    for back in (m.merge_params(a, b), m.merge_params(b, a), merge_nested(a, b)):
        got = dict(paths(back))
        assert set(got) == set(before), f"merging gave {sorted(got)}, not {sorted(before)}"
        assert all(np.array_equal(got[p], before[p]) for p in got), "merging changed a value"
    # supplied values take precedence over kept ones
    other = jax.tree_util.tree_map(lambda v: v + 7, tree)
    got = dict(paths(m.merge_params(jax.tree_util.tree_map(lambda v: v + 1, a), other)))
    assert all(np.array_equal(got[p], before[p] + (1 if p in want else 7)) for p in before), "precedence when merging"
    keep.check("the tree")
    parts.check("the parts")
    return "supplied and kept parameters" if pa and pb else None


@R.facet("flax-supplied", st.fixed_dictionaries(dict(
    n=st.integers(1, 3), move=st.sampled_from([0.0, 0.5, -1.0]), pred=st.sampled_from(["all", "w", "vector"]),
    x=history(lengths=(2, 5), scales=(1,), nan=False), bind=st.booleans(),
)), quick=30, thorough=500, weight=2)
def flax_supplied(c):
    import flax.linen as nn
    from wax.flax.modules.update_params import UpdateParams, get_init_params

    class Model(nn.Module):
        @nn.compact
        def __call__(self, x):
            for _ in range(c["n"]):
                x = nn.Dense(3)(x)
                s = self.variable("state", f"s{_}", jnp.zeros, x.shape) if _ == 0 else None
                if s is not None:
                    s.value = 0.5 * s.value + x
                    x = s.value
            return x

    x = jnp.asarray(np.array(c["x"], np.float32))
    m = Model()
    init = get_init_params(m, x[0])
    tree_close(init, m.init(jax.random.PRNGKey(0), x[0]), what="initial variables")
    assert get_init_params(lambda v: v, x[0]) == {}
    params = moved(init["params"], c["move"])
    state = init["state"]
    up = UpdateParams(fun=lambda p, s, v, k=1.0: m.apply({"params": p, "state": s}, v * k, mutable=["state"]), predicate=FXPRED[c["pred"]])
    v = up.init(key(), params, state, x[0])
    assert "params" not in v, "the wrapped parameters became parameters of the program"
    s1 = s2 = state
    for t in range(len(x)):
        keep = Untouched(v, params, s1)
        (y, n1) = up.apply(v, params, s1, x[t], k=2.0)
        e, n2 = m.apply({"params": params, "state": s2}, x[t] * 2.0, mutable=["state"])
        same(y, e, f"output of step {t}")
        keep.check()
        s1, s2 = n1["state"], n2["state"]
        tree_close(s1, s2, what="state")
        params = moved(params, 0.125)
    return "parameters change along a history with memory"
