"""C13: masks."""
import functools
import json

import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from common import arr, close, matrix, same, scale_of, via
from harness import Registry
from run import cached, key, to_np

R = Registry(
    "C13",
    rule="some entries are selected and some are not",
    assumptions=[
        "masks have the shape of the data (or one flag per row/column where an axis is given to "
        "ApplyMask); an empty selection is only judged for the mean (missing)",
        "normalisation is judged where the deviation is well away from zero, or one single entry is selected",
    ],
)
BACKENDS = ["haiku", "flax"]


def build(backend, name, axis, extra):
    if backend == "haiku":
        import wax.modules as m
        from wax.modules.apply_mask import ApplyMask
        from wax.modules.mask_mean import MaskMean
        from wax.modules.mask_normalize import MaskNormalize
        from wax.modules.mask_std import MaskStd
    else:
        from wax.flax.modules import ApplyMask, MaskMean, MaskNormalize, MaskStd

        ApplyMask, MaskMean, MaskNormalize, MaskStd = via(ApplyMask, MaskMean, MaskNormalize, MaskStd)
    make = {
        "apply": lambda: ApplyMask(axis=axis, mask_value=extra),
        "mean": lambda: MaskMean(axis=axis),
        "std": lambda: MaskStd(axis=axis, assume_centered=extra),
        "norm": lambda: MaskNormalize(axis=axis, assume_centered=extra),
    }[name]
    if backend == "haiku":
        f = hk.transform_with_state(lambda mask, x: make()(mask, x))

        @jax.jit
        def run(mask, x):
            p, s = f.init(key(), mask, x)
            return f.apply(p, s, key(), mask, x)[0]

        return run
    m = make()

    @jax.jit
    def run(mask, x):
        return m.init_with_output(key(), mask, x)[0]

    return run


get = cached(build)

shapes = st.sampled_from([[4, 3], [3, 4], [3, 3], [1, 4], [4, 1], [2, 2]])


@st.composite
def case(draw, axes, with_1d=True):
    axis = draw(st.sampled_from(axes))
    shape = draw(shapes)
    one_d = axis in (None, 0) and with_1d and draw(st.integers(0, 4)) == 0
    x = draw(matrix(*shape))
    mask = [[draw(st.booleans()) for _ in range(shape[1])] for _ in range(shape[0])]
    return {"axis": axis, "one_d": one_d, "x": x, "mask": mask}


def load(c):
    x, mask = arr(c["x"]), np.array(c["mask"], dtype=bool)
    if c["one_d"]:
        x, mask = x.ravel(), mask.ravel()
    return x, mask


def why(mask):
    return "partial selection" if mask.any() and not mask.all() else None


def axis_of(c):
    return c["axis"]


@R.facet(
    "apply",
    st.fixed_dictionaries(
        {
            "backend": st.sampled_from(BACKENDS),
            "c": case([None, 0, 1], with_1d=False),
            "value": st.sampled_from([0.0, -5.0, 2.5]),
            "tree": st.booleans(),
        }
    ),
    quick=300,
    thorough=6000,
    weight=1.5,
    secs=40,
)
def _(k):
    c = k["c"]
    x, mask = load(c)
    axis = c["axis"]
    if axis is None:
        m, full = mask, mask
    elif axis == 0:
        m = mask[:, 0]
        full = np.broadcast_to(m[:, None], x.shape)
    else:
        m = mask[0]
        full = np.broadcast_to(m[None, :], x.shape)
    e = np.where(full, x, np.float32(k["value"]))
    f = get(k["backend"], "apply", axis, k["value"])
    if k["tree"]:
        y = to_np(f(m, {"a": x, "b": [x * 2]}))
        same(y["b"][0], np.where(full, x * 2, np.float32(k["value"])), "nested")
        y = y["a"]
    else:
        y = np.asarray(f(m, x))
    same(y, e, "masked data")
    return why(full)


def ref_stat(x, mask, axis, what, centered=False):
    """statistics of the selected entries, missing ones counted as zero, by explicit selection"""
    v = np.nan_to_num(x.astype(np.float64))

    def one(a, m):
        s = a[m]
        if not len(s):
            return np.nan
        if what == "mean":
            return s.mean()
        return np.sqrt((s**2).mean()) if centered else s.std()

    if axis is None or x.ndim == 1:
        return np.array(one(v.ravel(), mask.ravel()))
    if axis == 0:
        return np.array([one(v[:, j], mask[:, j]) for j in range(x.shape[1])])
    return np.array([one(v[i], mask[i]) for i in range(x.shape[0])])


@R.facet(
    "mean",
    st.fixed_dictionaries({"backend": st.sampled_from(BACKENDS), "c": case([None, 0, 1]), "tree": st.booleans()}),
    quick=300,
    thorough=6000,
    weight=1.5,
    secs=40,
)
def _(k):
    x, mask = load(k["c"])
    axis = k["c"]["axis"]
    f = get(k["backend"], "mean", axis, None)
    if k["tree"]:
        y = to_np(f(mask, {"a": x, "b": -x}))
        close(y["b"], -ref_stat(x, mask, axis, "mean"), atol=1e-5, what="nested mean")
        y = y["a"]
    else:
        y = np.asarray(f(mask, x))
    close(y, ref_stat(x, mask, axis, "mean"), rtol=1e-5, atol=1e-5, what="mean of the selected entries")
    return why(mask)


@R.facet(
    "std",
    st.fixed_dictionaries(
        {
            "backend": st.sampled_from(BACKENDS),
            "c": case([None, 0, 1]),
            "centered": st.booleans(),
            "shift": st.sampled_from([0, 0, 0, 512, -4096]),
            "scale": st.sampled_from([1.0, 1.0, 64.0]),
        }
    ),
    quick=500,
    thorough=8000,
    weight=1.5,
    secs=40,
)
def _(k):
    x, mask = load(k["c"])
    x = x * np.float32(k["scale"]) + np.float32(k["shift"])
    axis = k["c"]["axis"]
    y = np.asarray(get(k["backend"], "std", axis, k["centered"])(mask, x))
    e = ref_stat(x, mask, axis, "std", k["centered"])
    assert y.shape == e.shape, f"shape {y.shape} != {e.shape}"
    ok = ~np.isnan(e)
    close(y[ok], e[ok], rtol=1e-4, atol=5e-3, what="deviation of the selected entries")
    return why(mask)


@R.facet(
    "normalize",
    st.fixed_dictionaries(
        {"backend": st.sampled_from(BACKENDS), "c": case([None, 0, 1]), "centered": st.booleans()}
    ),
    quick=300,
    thorough=6000,
    weight=1.5,
    secs=40,
)
def _(k):
    x, mask = load(k["c"])
    axis = k["c"]["axis"]
    y = np.asarray(get(k["backend"], "norm", axis, k["centered"])(mask, x))
    e = ref_stat(x, mask, axis, "std", k["centered"])
    n = mask.sum() if axis is None or x.ndim == 1 else mask.sum(axis=axis)
    if axis is not None and x.ndim == 2:
        e, n = np.expand_dims(e, axis), np.expand_dims(n, axis)
    e, n = np.broadcast_to(e, x.shape), np.broadcast_to(n, x.shape)
    assert y.shape == x.shape, f"shape {y.shape} != {x.shape}"
    assert np.isfinite(y).all(), "a non finite normalised value"
    clear = e > 0.1
    with np.errstate(all="ignore"):
        v = np.where(np.isfinite(x / e), x / e, 0.0)
    close(y[clear], v[clear], rtol=1e-3, atol=1e-3, what="normalised")
    single = (n == 0) | ((n == 1) & (not k["centered"]))
    assert (y[single] == 0).all(), f"no deviation, but not zero: {y[single]}"
    return why(mask) if clear.any() else None


@R.facet(
    "unselected_do_not_matter",
    st.fixed_dictionaries(
        {
            "backend": st.sampled_from(BACKENDS),
            "name": st.sampled_from(["mean", "std"]),
            "c": case([None, 0, 1]),
            "centered": st.booleans(),
            "other": st.sampled_from([0.0, 1e6, -3.0, "nan", "inf"]),
        }
    ),
    quick=300,
    thorough=6000,
    weight=1.5,
    secs=40,
)
def _(k):
    x, mask = load(k["c"])
    f = get(k["backend"], k["name"], k["c"]["axis"], None if k["name"] == "mean" else k["centered"])
    a = np.asarray(f(mask, x))
    other = np.where(mask, x, np.float32(k["other"]))
    b = np.asarray(f(mask, other.astype(np.float32)))
    same(a, b, "statistics with other unselected entries")
    return why(mask)


LARGE = [[64, 3], [3, 50], [2, 3, 2], [4, 1, 3], [3, 4, 5], [40, 2, 1], [7, 9], [1, 80, 1]]


@st.composite
def large_case(draw):
    shape = draw(st.sampled_from(LARGE))
    n = int(np.prod(shape))
    x = draw(matrix(n, 1, gaps=False))
    kind = draw(st.sampled_from(["random", "random", "mostly", "full"]))
    bits = draw(st.binary(min_size=n, max_size=n))
    mask = [{"random": b % 2 == 0, "mostly": b % 16 != 0, "full": True}[kind] for b in bits]
    axis = draw(st.sampled_from([None, *range(-len(shape), len(shape))]))
    return {"shape": shape, "x": [v[0] for v in x], "mask": mask, "axis": axis}


@R.facet(
    "larger",
    st.fixed_dictionaries(
        {
            "backend": st.sampled_from(BACKENDS),
            "name": st.sampled_from(["mean", "std", "norm"]),
            "c": large_case(),
            "centered": st.booleans(),
            "shift": st.sampled_from([0, 0, 512]),
        }
    ),
    quick=250,
    thorough=6000,
    weight=2,
    secs=60,
)
def _(k):
    """many entries, three dimensions, axes counted from either end"""
    c = k["c"]
    x = arr(c["x"]).reshape(c["shape"])
    mask = np.array(c["mask"], dtype=bool).reshape(c["shape"])
    axis = c["axis"]
    if k["backend"] == "flax" and axis is not None and axis > 1:
        return None  # not supported
    if k["name"] == "std":
        x = x + np.float32(k["shift"])
    f = get(k["backend"], k["name"], axis, None if k["name"] == "mean" else k["centered"])
    y = np.asarray(f(mask, x))
    v = np.nan_to_num(x.astype(np.float64))
    n = mask.sum(axis=axis, keepdims=True)
    with np.errstate(all="ignore"):
        mean = np.where(mask, v, 0).sum(axis=axis, keepdims=True) / n
        d = v if k["centered"] else v - mean
        std = np.sqrt(np.where(mask, d * d, 0).sum(axis=axis, keepdims=True) / n)
    if k["name"] == "norm":
        assert y.shape == x.shape, f"shape {y.shape} != {x.shape}"
        assert np.isfinite(y).all(), "a non finite normalised value"
        std = np.broadcast_to(std, x.shape)
        ok = std > 0.1
        with np.errstate(all="ignore"):
            e = np.where(np.isfinite(x / std), x / std, 0.0)
        close(y[ok], e[ok], rtol=1e-3, atol=1e-3, what="normalised")
        return why(mask) if ok.any() else None
    e = np.squeeze(mean if k["name"] == "mean" else std, axis=axis)
    assert y.shape == e.shape, f"shape {y.shape} != {e.shape}"
    ok = np.squeeze(n, axis=axis) > 0
    close(y[ok], e[ok], rtol=1e-4, atol=5e-3 if k["name"] == "std" else 1e-5, what=k["name"])
    return why(mask)


@R.facet(
    "apply_larger",
    st.fixed_dictionaries(
        {
            "backend": st.sampled_from(BACKENDS),
            "c": large_case(),
            "value": st.sampled_from([0.0, -5.0, 2.5, "nan"]),
            "integers": st.booleans(),
        }
    ),
    quick=200,
    thorough=4000,
    weight=2,
    secs=60,
)
def _(k):
    c = k["c"]
    x = arr(c["x"]).reshape(c["shape"])
    full = np.array(c["mask"], dtype=bool).reshape(c["shape"])
    axis = c["axis"]
    if axis not in (None, 0, 1) or (k["backend"] == "haiku" and x.ndim > 2):
        axis = None
    m = full
    if axis is not None:
        m = full.reshape(x.shape[0], x.shape[1], -1)[:, 0, 0] if axis == 0 else full.reshape(x.shape[0], x.shape[1], -1)[0, :, 0]
        full = np.broadcast_to(np.expand_dims(m, [i for i in range(x.ndim) if i != axis]), x.shape)
    value = float(k["value"])
    if k["integers"]:
        x = np.nan_to_num(x * 8).astype(np.int32)
    y = np.asarray(get(k["backend"], "apply", axis, value)(m, x))
    same(y.astype(np.float32), np.where(full, x, np.float32(value)).astype(np.float32), "masked data")
    return why(full)


@R.facet(
    "small_deviation",
    st.fixed_dictionaries(
        {
            "backend": st.sampled_from(BACKENDS),
            "c": case([None, 0, 1]),
            "centered": st.booleans(),
            "scale": st.sampled_from([1e-3, 1e-4]),
            "norm": st.booleans(),
        }
    ),
    quick=200,
    thorough=4000,
    weight=1,
    secs=40,
)
def _(k):
    """selected entries close to each other: their deviation is small, but it is not zero"""
    x, mask = load(k["c"])
    # the second backend adds a larger amount under its root
    haiku = k["backend"] == "haiku"
    x = x * np.float32(k["scale"] if haiku else 10 * k["scale"])
    axis = k["c"]["axis"]
    e = ref_stat(x, mask, axis, "std", k["centered"])
    floor = 3e-5 if haiku else 1e-2
    y = np.asarray(get(k["backend"], "norm" if k["norm"] else "std", axis, k["centered"])(mask, x))
    if k["norm"]:
        if axis is not None and x.ndim == 2:
            e = np.expand_dims(e, axis)
        e = np.broadcast_to(e, x.shape)
        with np.errstate(all="ignore"):
            v = np.where(np.isfinite(x / e), x / e, 0.0)
    else:
        v = e
    with np.errstate(invalid="ignore"):
        ok = e > floor
    close(y[ok], v[ok], rtol=3e-3, atol=1e-3 if k["norm"] else 1e-6, what="normalised" if k["norm"] else "deviation")
    return why(mask) if ok.any() else None
