"""C14: open-high-low-close bars."""
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from common import arr, history, long_case, long_data, long_events, same, via
from harness import Registry
from run import cached, fx_scan, hk_scan, to_np

R = Registry(
    "C14",
    rule="at least one reset after some non-missing observation, and at least one missing value or "
    "a bin of several observations",
    assumptions=["the reset flag is one boolean per step, observations are real numbers, NaN = missing"],
)


def build(backend, event):
    if backend == "haiku":
        from wax.modules import OHLC, HasChanged

        if event == "flag":
            return hk_scan(lambda reset, x: OHLC()(x, reset_on=reset)._asdict())
        return hk_scan(lambda day, x: OHLC()(x, reset_on=HasChanged()(day))._asdict())
    from flax import linen as nn

    from wax.flax.modules import OHLC, HasChanged

    class Bars(nn.Module):
        @nn.compact
        def __call__(self, r, x):
            if event == "day":
                r = via(HasChanged)()(r)
            return via(OHLC)()(x, r)._asdict()

    return fx_scan(Bars)


get = cached(build)


def model(x, reset):
    """per component, from the list of the observations of the bin"""
    T = len(x)
    flat = x.reshape(T, -1)
    out = {k: np.full(flat.shape, np.nan, x.dtype) for k in ("OPEN", "HIGH", "LOW", "CLOSE")}
    for j in range(flat.shape[1]):
        seen = []
        for t in range(T):
            if reset[t]:
                seen = []
            if not np.isnan(flat[t, j]):
                seen.append(flat[t, j])
            if seen:
                out["OPEN"][t, j] = seen[0]
                out["HIGH"][t, j] = max(seen)
                out["LOW"][t, j] = min(seen)
                out["CLOSE"][t, j] = seen[-1]
    return {k: v.reshape(x.shape) for k, v in out.items()}


SHAPES = [[], [1], [3], [2, 2]]
LENGTHS = [1, 2, 3, 5, 8, 12, 24]


@st.composite
def case(draw, backend=st.sampled_from(["haiku", "flax"])):
    shape = draw(st.sampled_from(SHAPES))
    n = int(np.prod(shape)) if shape else 1
    x = draw(history(n, lengths=LENGTHS))
    T = len(x)
    p = draw(st.sampled_from([1, 2, 4, 7]))
    reset = [draw(st.integers(0, p)) == 0 for _ in range(T)]
    inf = draw(st.integers(0, 5)) == 0
    if inf:
        t, j = draw(st.integers(0, T - 1)), draw(st.integers(0, n - 1))
        x[t][j] = draw(st.sampled_from(["inf", "-inf"]))
    # 0: the values as drawn; otherwise neighbouring floating-point numbers around that value
    near = draw(st.sampled_from([0, 0, 0, 1.0, -1.0, 1000.0, 1e30, -1e-30]))
    return {"backend": draw(backend), "shape": shape, "x": x, "reset": reset, "near": near}


def load(c):
    x = np.array(c["x"], dtype=np.float32)
    if c.get("near"):
        x = (c["near"] * (1 + np.clip(np.rint(x.astype(np.float64)), -64, 64) * 2.0**-22)).astype(np.float32)
    return x.reshape([len(x)] + c["shape"]), np.array(c["reset"], dtype=bool)


def why(x, reset):
    later = reset[1:].any() and not np.isnan(x).all()
    if not later:
        return None
    if np.isnan(x).any():
        return "reset and missing values"
    return "reset, bins of several observations" if reset.sum() < len(x) else None


@R.facet("model", case(), quick=1600, thorough=40000, weight=4, secs=60)
def _(c):
    x, reset = load(c)
    y, _, _ = get(c["backend"], "flag")(reset, x)
    e = model(x, reset)
    y = to_np(y)
    for k in e:
        same(y[k], e[k], k)
    return why(x, reset)


@R.facet("day_bars", case(), quick=500, thorough=15000, weight=2, secs=60)
def _(c):
    """bars restarted when a date changes"""
    x, reset = load(c)
    day = np.cumsum(reset).astype(np.int32) + 17000
    y, _, _ = get(c["backend"], "day")(day, x)
    changed = np.concatenate([[True], day[1:] != day[:-1]])
    e = model(x, changed)
    y = to_np(y)
    for k in e:
        same(y[k], e[k], k)
    return why(x, changed)


@R.facet("ordering_and_independence", case(), quick=500, thorough=15000, weight=2, secs=60)
def _(c):
    """low <= open, close <= high; nothing before the last reset matters"""
    x, reset = load(c)
    run = get(c["backend"], "flag")
    y = to_np(run(reset, x)[0])
    ok = ~np.isnan(y["OPEN"])
    for k in y:
        assert (np.isnan(y[k]) == ~ok).all(), f"{k} is missing where OPEN is not"
    for k in ("OPEN", "CLOSE"):
        assert (y["LOW"][ok] <= y[k][ok]).all() and (y[k][ok] <= y["HIGH"][ok]).all(), f"{k} outside LOW..HIGH"
    at = np.flatnonzero(reset)
    if not len(at) or at[-1] == 0:
        return None
    s = at[-1]
    other = x.copy()
    other[:s] = np.where(np.isnan(x[:s]), 1e6, -1e6)
    z = to_np(run(reset, other)[0])
    for k in y:
        same(z[k][s:], y[k][s:], f"{k} after the reset")
    # negating the data swaps HIGH and LOW
    n = to_np(run(reset, -x)[0])
    same(n["HIGH"], -y["LOW"], "HIGH of the negated data")
    return why(x, reset)


@R.facet(
    "long_bins",
    st.fixed_dictionaries(
        {"backend": st.sampled_from(["haiku", "flax"]), "event": st.sampled_from(["flag", "day"]), "d": long_case(lengths=(300, 700), columns=(1, 3, 30))}
    ),
    quick=40,
    thorough=1200,
    weight=1.5,
    secs=60,
)
def _(c):
    """bins of hundreds of observations, long gaps, many components"""
    x, reset = long_data(c["d"]).astype(np.float32), long_events(c["d"])
    if c["event"] == "day":
        first = np.cumsum(reset).astype(np.int32)
        reset = np.concatenate([[True], first[1:] != first[:-1]])
    else:
        first = reset
    y = to_np(get(c["backend"], c["event"])(first, x)[0])
    e = model(x, reset)
    for k in e:
        same(y[k], e[k], k)
    return why(x, reset)


# --------------------------------------------------------------- integers

import whole  # noqa: E402
from catalog import op as catalog_op  # noqa: E402

whole.register(R, catalog_op(["ohlc"]), quick=24)
whole.register_double(R, catalog_op(["ohlc"]), quick=20)
whole.register_scaled(R, ["ohlc"], quick=24)
