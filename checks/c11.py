"""C11: buffer, lag, difference, rolling mean, relative change."""
import math
import warnings
from collections import deque

import jax.numpy as jnp
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from common import NAN, arr, close, has_nan, history, long_case, long_data, matrix, same, scale_of, via
from harness import Registry
from run import cached, fx_scan, hk_scan, to_np

R = Registry(
    "C11",
    rule="the window is only partly filled at some step and full at another, or it holds a missing value",
    assumptions=["float32; window length up to 9; facets *_long: windows up to 257 and histories of 300 to 1500 steps"],
)
BACKENDS = ["haiku", "flax"]


# --------------------------------------------------------------- buffer


def build_buffer(backend, maxlen, fill, dtype, shape, with_state):
    fv = NAN if fill == "nan" else fill
    if backend == "haiku":
        from wax.modules import Buffer

        def fun(x):
            return Buffer(maxlen, fill_value=fv, return_state=with_state)(x)

        return hk_scan(fun)
    from wax.flax.modules import Buffer as F

    return fx_scan(lambda: via(F)(maxlen, fill_value=fv, return_state=with_state))


get_buffer = cached(build_buffer)


def model_buffer(x, maxlen, fv):
    d = deque([np.full(x.shape[1:], fv, dtype=x.dtype)] * maxlen, maxlen=maxlen)
    out = []
    for v in x:
        d.append(v)
        out.append(np.stack(d))
    return np.stack(out)


buffer_case = st.fixed_dictionaries(
    {
        "backend": st.sampled_from(BACKENDS),
        "maxlen": st.sampled_from([1, 2, 3, 4, 6, 9]),
        "dtype": st.sampled_from(["float32", "float32", "int32", "bool"]),
        "fill": st.sampled_from(["nan", 0.0, -7.0]),
        "shape": st.sampled_from([[], [3], [3, 1]]),
        "x": history(N=3, lengths=(3, 12, 50), scales=(1,)),
        "with_state": st.booleans(),
    }
)


@R.facet("buffer", buffer_case, quick=260, thorough=6000, weight=3, secs=45)
def _(c):
    a = arr(c["x"])
    fill = c["fill"]
    if c["dtype"] == "int32":
        a = np.nan_to_num(a * 8).astype(np.int32)
        fill = 0 if fill == "nan" else int(fill)
    elif c["dtype"] == "bool":
        a = a > 0
        fill = False
    a = a[:, 0] if not c["shape"] else a.reshape((len(a), *c["shape"]))
    ys, _, _ = to_np(get_buffer(c["backend"], c["maxlen"], fill, c["dtype"], c["shape"], c["with_state"])(a))
    if c["with_state"]:
        ys, state = ys
        n = np.minimum(np.arange(1, len(a) + 1), c["maxlen"])
        close(state.len_buffer, n, what="reported length")
        same(np.asarray(state.buffer), ys, "buffer in state")
        if c["backend"] == "haiku":
            close(state.i_start, c["maxlen"] - n, what="reported start")
    same(ys, model_buffer(a, c["maxlen"], NAN if fill == "nan" else fill), "buffer")
    return "filled and wrapped" if len(a) > c["maxlen"] > 1 else None


@R.facet(
    "buffer_long",
    st.fixed_dictionaries(
        {
            "backend": st.sampled_from(BACKENDS),
            "maxlen": st.sampled_from([1, 3, 7, 64, 100, 256, 257]),
            "T": st.sampled_from([600, 1500]),
            "seed": st.integers(0, 1000),
        }
    ),
    quick=24,
    thorough=150,
    weight=1.5,
    secs=40,
)
def _(c):
    a = ((np.arange(c["T"] * 2) * (2 * c["seed"] + 1)) % 1021).astype(np.float32).reshape(c["T"], 2)
    ys, _, _ = to_np(get_buffer(c["backend"], c["maxlen"], "nan", "float32", [2], False)(a))
    same(ys, model_buffer(a, c["maxlen"], np.nan), "buffer")
    return "many wraps"


@R.facet(
    "buffer_fn",
    st.fixed_dictionaries(
        {
            "maxlen": st.integers(1, 6),
            "x": matrix(8, 2),
            "fill": st.sampled_from(["nan", 2.0]),
        }
    ),
    quick=40,
    thorough=600,
    weight=1.5,
    secs=30,
)
def _(c):
    """The functional form, called step by step; earlier states stay valid."""
    from wax.modules.buffer import buffer_fn

    fv = NAN if c["fill"] == "nan" else c["fill"]
    f = buffer_fn(c["maxlen"], fv)
    a = arr(c["x"])
    s = f.init((2,), jnp.float32)
    states = [s]
    e = model_buffer(a, c["maxlen"], fv)
    for t, v in enumerate(a):
        y, s = f.apply(jnp.asarray(v), s)
        same(np.asarray(y), e[t], "functional buffer")
        assert int(s.len_buffer) == min(t + 1, c["maxlen"])
        states.append(s)
    y, _ = f.apply(jnp.asarray(a[3]), states[3])
    same(np.asarray(y), e[3], "state reused")
    return "filled and wrapped" if c["maxlen"] > 1 else None


# --------------------------------------------------------------- lag / diff


def build_lag(backend, lag, fill, mode):
    fv = NAN if fill == "nan" else fill
    if backend == "haiku":
        from wax.modules import Lag
        from wax.modules.lag import tree_lag

        if mode == "tree":
            return hk_scan(lambda x: tree_lag(lag)({"a": x, "b": (x[0], None)})[0])
        return hk_scan(lambda x: Lag(lag, fill_value=fv, return_state=mode == "state")(x))
    import flax.linen as nn
    from wax.flax.modules import Lag as F
    from wax.flax.modules.lag import tree_lag as ftree_lag

    if mode == "tree":

        class T(nn.Module):
            @nn.compact
            def __call__(self, x):
                return ftree_lag(lag)({"a": x, "b": (x[0], None)})[0]

        return fx_scan(T)
    return fx_scan(lambda: via(F)(lag, fill_value=fv, return_state=mode == "state"))


get_lag = cached(build_lag)


def shifted(x, k, fv):
    pad = np.full((k, *x.shape[1:]), fv, dtype=x.dtype)
    return np.concatenate([pad, x])[: len(x)]


@R.facet(
    "lag",
    st.fixed_dictionaries(
        {
            "backend": st.sampled_from(BACKENDS),
            "lag": st.sampled_from([1, 2, 3, 5, 8]),
            "fill": st.sampled_from(["nan", 0.0]),
            "mode": st.sampled_from(["value", "value", "state", "tree"]),
            "x": history(N=3, lengths=(3, 12, 50), scales=(1,)),
        }
    ),
    quick=220,
    thorough=5000,
    weight=2.5,
    secs=45,
)
def _(c):
    a = arr(c["x"])
    fill = "nan" if c["mode"] == "tree" else c["fill"]
    ys, _, _ = to_np(get_lag(c["backend"], c["lag"], fill, c["mode"])(a))
    fv = NAN if fill == "nan" else fill
    e = shifted(a, c["lag"], fv)
    if c["mode"] == "state":
        ys, state = ys
        close(state.len_buffer, np.minimum(np.arange(1, len(a) + 1), c["lag"] + 1), what="length")
        same(np.asarray(state.buffer), model_buffer(a, c["lag"] + 1, fv), "buffer of the lag")
    elif c["mode"] == "tree":
        assert set(ys) == {"a", "b"} and ys["b"][1] is None
        same(ys["b"][0], e[:, 0], "tree lag")
        ys = ys["a"]
    same(ys, e, "lag")
    return "filled" if len(a) > c["lag"] else None


def build_diff(backend):
    if backend == "haiku":
        from wax.modules import Diff

        return hk_scan(lambda x: Diff()(x))
    from wax.flax.modules import Diff as F

    return fx_scan(lambda: via(F)())


get_diff = cached(build_diff)


@R.facet(
    "diff",
    st.fixed_dictionaries({"backend": st.sampled_from(BACKENDS), "x": history(lengths=(3, 12, 50))}),
    quick=200,
    thorough=3000,
    weight=1,
    secs=30,
)
def _(c):
    a = arr(c["x"])
    ys, _, _ = to_np(get_diff(c["backend"])(a))
    ref = pd.DataFrame(a.astype(np.float64)).diff().values
    close(ys, ref, rtol=1e-5, atol=1e-5 * scale_of(c["x"]), what="diff")
    return "missing value" if has_nan(c["x"]) else None


# --------------------------------------------------------------- rolling mean


def build_roll(backend, horizon, min_periods):
    if backend == "haiku":
        from wax.modules import RollingMean

        return hk_scan(lambda x: RollingMean(horizon, min_periods=min_periods)(x))
    from wax.flax.modules import RollingMean as F

    return fx_scan(lambda: via(F)(horizon, min_periods=min_periods))


get_roll = cached(build_roll)


@R.facet(
    "rolling_mean",
    st.fixed_dictionaries(
        {
            "backend": st.sampled_from(BACKENDS),
            "horizon": st.sampled_from([1, 2, 3, 4, 7, 9]),
            "min_periods": st.sampled_from([1, 1, 2, 3, 7]),
            "x": history(N=3, lengths=(3, 12, 50)),
        }
    ),
    quick=300,
    thorough=6000,
    weight=2.5,
    secs=45,
)
def _(c):
    # more observations asked for than the window holds: never enough (pandas refuses it)
    h, m = c["horizon"], c["min_periods"]
    a = arr(c["x"])
    ys, _, _ = to_np(get_roll(c["backend"], h, m)(a))
    x = a.astype(np.float64)
    e = np.full(x.shape, np.nan)
    for t in range(len(x)):
        w = x[max(0, t - h + 1) : t + 1]
        for j in range(x.shape[1]):
            v = w[:, j][~np.isnan(w[:, j])]
            if len(v) >= m:
                e[t, j] = v.mean()
    if m <= h:
        ref = pd.DataFrame(x).rolling(h, min_periods=m).mean().values
        close(e, ref, atol=1e-6 * scale_of(c["x"]), what="oracle against pandas")
    close(ys, e, rtol=1e-5, atol=1e-5 * scale_of(c["x"]), what="rolling mean")
    return "missing value in a full window" if has_nan(c["x"]) and len(x) > h > 1 else None


# --------------------------------------------------------------- relative change


def build_pct(backend, method, fillna_zero):
    if backend == "haiku":
        from wax.modules import PctChange

        return hk_scan(lambda x: PctChange(fill_method=method, fillna_zero=fillna_zero)(x))
    from wax.flax.modules import PctChange as F

    return fx_scan(lambda: via(F)(fill_method=method, fillna_zero=fillna_zero))


get_pct = cached(build_pct)


@R.facet(
    "pct_change",
    st.fixed_dictionaries(
        {
            "backend": st.sampled_from(BACKENDS),
            "method": st.sampled_from(["pad", "pad", "ffill", None]),
            "fillna_zero": st.booleans(),
            "positive": st.booleans(),
            "x": history(lengths=(3, 12, 50)),
        }
    ),
    quick=300,
    thorough=6000,
    weight=2,
    secs=40,
)
def _(c):
    a = arr(c["x"])
    if c["positive"]:
        a = np.abs(a) + np.float32(0.125)
    ys, _, _ = to_np(get_pct(c["backend"], c["method"], c["fillna_zero"])(a))
    x = a.astype(np.float64)
    filled = pd.DataFrame(x).ffill().values if c["method"] else x
    prev = shifted(filled, 1, np.nan)
    with np.errstate(all="ignore"):
        e = x / prev - 1.0
    if c["fillna_zero"]:
        e = np.where(np.isnan(x) & ~np.isnan(prev), 0.0, e)
    if c["positive"] and c["method"] and c["fillna_zero"]:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ref = pd.DataFrame(x).pct_change(fill_method="pad").values
        close(e, ref, what="oracle against pandas")
    elif c["positive"] and c["method"] is None and not c["fillna_zero"]:
        ref = pd.DataFrame(x).pct_change(fill_method=None).values
        close(e, ref, what="oracle against pandas")
    close(ys, e, rtol=1e-4, atol=1e-4, what="relative change")
    return "missing value" if has_nan(c["x"]) else None


# --------------------------------------------------------------- infinite observations


@R.facet(
    "infinite",
    st.fixed_dictionaries(
        {
            "backend": st.sampled_from(BACKENDS),
            "what": st.sampled_from(["roll", "roll", "buffer", "lag", "pct", "diff"]),
            "n": st.sampled_from([1, 2, 3, 5]),
            "min_periods": st.sampled_from([1, 2]),
            "x": matrix(12, 3),
            "at": st.lists(st.tuples(st.integers(0, 11), st.integers(0, 2), st.sampled_from([1, -1])), min_size=1, max_size=5),
        }
    ),
    quick=90,
    thorough=2000,
    weight=1.5,
    secs=40,
)
def _(c):
    """an infinite observation is a value like the others: it counts while it is in the window, not longer"""
    a = arr(c["x"])
    for t, j, sign in c["at"]:
        a[t, j] = sign * np.inf
    x = a.astype(np.float64)
    n = c["n"]
    if c["what"] in ("buffer", "lag"):
        if c["what"] == "buffer":
            ys = to_np(get_buffer(c["backend"], n, "nan", "float32", [3], False)(a))[0]
            same(ys, model_buffer(a, n, NAN), "buffer")
        else:
            ys = to_np(get_lag(c["backend"], n, "nan", "value")(a))[0]
            same(ys, shifted(a, n, np.nan), "lag")
        return "infinite value"
    with np.errstate(all="ignore"):
        if c["what"] == "roll":
            m = min(c["min_periods"], n)
            ys = to_np(get_roll(c["backend"], n, m)(a))[0]
            e = np.full(x.shape, np.nan)
            for t in range(len(x)):
                w = x[max(0, t - n + 1) : t + 1]
                k = (~np.isnan(w)).sum(axis=0)
                ok = k >= m
                e[t, ok] = np.where(np.isnan(w), 0, w).sum(axis=0)[ok] / k[ok]
        elif c["what"] == "diff":
            ys = to_np(get_diff(c["backend"])(a))[0]
            e = x - shifted(x, 1, np.nan)
        else:
            ys = to_np(get_pct(c["backend"], "pad", False)(a))[0]
            prev = shifted(pd.DataFrame(x).ffill().values, 1, np.nan)
            e = x / prev - 1.0
    close(ys, e, rtol=1e-4, atol=1e-4, what=c["what"])
    return "infinite value"


# --------------------------------------------------------------- long and wide histories


@R.facet(
    "long_history",
    st.fixed_dictionaries(
        {
            "backend": st.sampled_from(BACKENDS),
            "what": st.sampled_from(["roll", "roll", "lag", "pct", "diff"]),
            "n": st.sampled_from([12, 20, 64, 130]),
            "min_periods": st.sampled_from([1, 5, 12]),
            "d": long_case(lengths=(300, 700), columns=(1, 3, 30)),
            "inf": st.booleans(),
        }
    ),
    quick=50,
    thorough=1200,
    weight=2,
    secs=60,
)
def _(c):
    a = long_data(c["d"], positive=c["what"] == "pct").astype(np.float32)
    x = a.astype(np.float64)
    s = scale_of(a)
    if c["what"] == "roll":
        ys, _, _ = to_np(get_roll(c["backend"], c["n"], c["min_periods"])(a))
        e = np.full(x.shape, np.nan)
        for t in range(len(x)):
            w = x[max(0, t - c["n"] + 1) : t + 1]
            k = (~np.isnan(w)).sum(axis=0)
            ok = k >= c["min_periods"]
            e[t, ok] = np.nansum(w, axis=0)[ok] / k[ok]
        close(ys, e, rtol=1e-5, atol=2e-5 * s, what="rolling mean")
    elif c["what"] == "lag":
        if c["inf"]:
            a[::17, 0] = np.inf
            a[3::17, -1] = -np.inf
        ys, _, _ = to_np(get_lag(c["backend"], c["n"], "nan", "value")(a))
        same(ys, shifted(a, c["n"], np.nan), "lag")
    elif c["what"] == "diff":
        ys, _, _ = to_np(get_diff(c["backend"])(a))
        e = x - shifted(x, 1, np.nan)
        close(ys, e, rtol=1e-5, atol=1e-5 * s, what="diff")
    else:
        ys, _, _ = to_np(get_pct(c["backend"], "pad", c["inf"])(a))
        prev = shifted(pd.DataFrame(x).ffill().values, 1, np.nan)
        e = x / prev - 1.0
        e = np.where(np.isnan(x), prev / prev - 1.0 if c["inf"] else np.nan, e)
        close(ys, e, rtol=1e-4, atol=1e-4, what="relative change")
    return "missing value" if np.isnan(a).any() else None


# --------------------------------------------------------------- integers

import whole  # noqa: E402
from catalog import op as catalog_op  # noqa: E402

whole.register(
    R,
    catalog_op(["rolling", "diff", "pct", "buffer", "lag"]).map(
        # an integer cannot hold the missing value: the fill value of integer data is a number
        lambda o: [o[0], {**o[1], "fill": 0.0}] if o[1].get("fill") else o
    ),
    quick=40,
)
whole.register_double(R, catalog_op(["rolling", "diff", "buffer", "lag"]), quick=30)
whole.register_scaled(R, ["rolling", "diff", "buffer", "lag", "pct"], quick=40)
