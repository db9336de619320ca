"""C09: exponentially weighted variance and covariance."""
import math
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from common import arr, close, history, long_case, long_data, mixed_gap, scale_of, via
from harness import Registry
from oracles import com_of, ewma, ewmvar
from run import cached, fx_scan, hk_scan, to_np

R = Registry(
    "C09",
    rule="a gap between two observations, or a non-default weighting / initial value / minimum count",
    assumptions=["float32 arithmetic, tolerance 2e-4 of the squared data scale"],
)
DECAYS = [["alpha", 0.5], ["com", 2.0], ["alpha", 0.1], ["com", 5.0], ["com", 0.3], ["alpha", 1.0], ["com", 30.0]]
ADJ = [True, False, "linear"]
BACKENDS = ["haiku", "flax"]


def build_var(backend, decay, adjust):
    mk = {"adjust": adjust, decay[0]: decay[1]}
    if backend == "haiku":
        from wax.modules import EWMVar

        return hk_scan(lambda x: EWMVar(**mk)(x))
    from wax.flax.modules import EWMVar as F

    return fx_scan(lambda: via(F)(**mk))


get_var = cached(build_var)
decays = st.sampled_from(DECAYS)


def gap_or(c, *conds):
    if mixed_gap(c["x"]):
        return "gap between observations"
    return "non-default options" if any(conds) else None


@R.facet(
    "var_definition",
    st.fixed_dictionaries(
        {
            "x": history(lengths=(3, 12, 12, 50)),
            "decay": decays,
            "adjust": st.sampled_from(ADJ),
            "backend": st.sampled_from(BACKENDS),
        }
    ),
    quick=400,
    thorough=8000,
    weight=3,
    secs=45,
)
def _(c):
    ys, _, _ = to_np(get_var(c["backend"], c["decay"], c["adjust"])(arr(c["x"])))
    e = ewmvar(c["x"], com_of(c["decay"]), c["adjust"])
    close(ys, e, rtol=1e-3, atol=2e-4 * scale_of(c["x"]) ** 2, what="variance")
    assert (ys >= 0).all(), "negative variance"
    return gap_or(c, c["adjust"] is not True)


@R.facet(
    "var_invariances",
    st.fixed_dictionaries(
        {
            "x": history(lengths=(12, 50), scales=(1,)),
            "decay": decays,
            "adjust": st.sampled_from(ADJ),
            "backend": st.sampled_from(BACKENDS),
            "shift": st.sampled_from([0.0, 64.0, -512.0, 8.0]),
            "factor": st.sampled_from([1.0, -2.0, 16.0, 0.25]),
        }
    ),
    quick=200,
    thorough=4000,
    weight=2,
    secs=40,
)
def _(c):
    f = get_var(c["backend"], c["decay"], c["adjust"])
    x = arr(c["x"])
    a = np.asarray(f(x)[0], dtype=np.float64)
    b = np.asarray(f(x * np.float32(c["factor"]) + np.float32(c["shift"]))[0], dtype=np.float64)
    k = c["factor"] ** 2
    close(b, a * k, rtol=2e-3, atol=2e-3 * max(1.0, k) * scale_of(c["x"]), what="shift/scale")
    assert (b >= 0).all(), "negative variance"
    return "shifted and scaled" if c["shift"] and c["factor"] != 1.0 else None


@R.facet(
    "var_pandas",
    st.fixed_dictionaries(
        {
            "x": history(lengths=(12, 50)),
            "decay": decays,
            "adjust": st.booleans(),
            "backend": st.sampled_from(BACKENDS),
        }
    ),
    quick=150,
    thorough=3000,
    weight=2,
    secs=40,
)
def _(c):
    x = np.array(c["x"], dtype=np.float64)
    ys, _, _ = to_np(get_var(c["backend"], c["decay"], c["adjust"])(arr(c["x"])))
    ref = pd.DataFrame(x).ewm(adjust=c["adjust"], ignore_na=True, **{c["decay"][0]: c["decay"][1]}).var(bias=True).values
    seen = np.cumsum(~np.isnan(x), axis=0) > 0
    ref = np.where(seen, ref, 0.0)
    close(ys, ref, rtol=1e-3, atol=2e-4 * scale_of(c["x"]) ** 2, what="pandas var")
    return gap_or(c, c["adjust"] is not True)


# --------------------------------------------------------------- covariance

cov_opts = st.fixed_dictionaries(
    {
        "decay": decays,
        "adjust": st.sampled_from(ADJ),
        "ignore_na": st.booleans(),
        "min_periods": st.sampled_from([0, 1, 3]),
        "initial_value": st.sampled_from([None, None, 0.0, 0.5]),
        "assume_centered": st.booleans(),
    }
)


def cov_kw(o):
    d = {k: o[k] for k in ("adjust", "ignore_na", "min_periods", "assume_centered")}
    d["initial_value"] = math.nan if o["initial_value"] is None else o["initial_value"]
    d[o["decay"][0]] = o["decay"][1]
    return d


def build_cov(backend, o, tupled):
    mk = cov_kw(o)
    if backend == "haiku":
        from wax.modules import EWMCov

        if tupled:
            return hk_scan(lambda x, y: EWMCov(**mk)((x, y)))
        return hk_scan(lambda x, y: EWMCov(**mk)(x, y))
    import flax.linen as nn
    from wax.flax.modules import EWMCov as F

    if not tupled:
        return fx_scan(lambda: via(F)(**mk))

    class T(nn.Module):
        @nn.compact
        def __call__(self, x, y):
            return via(F)(**mk)((x, y))

    return fx_scan(T)


get_cov = cached(build_cov)


def cov_ref(x, y, o):
    kw = {k: v for k, v in cov_kw(o).items() if k not in ("assume_centered", "com", "alpha")}
    com = com_of(o["decay"])
    x = np.array(x, dtype=np.float64)
    y = np.array(y, dtype=np.float64)
    xy = ewma(x[:, :, None] * y[:, None, :], com, **kw)["mean"]
    if o["assume_centered"]:
        return xy
    mx = ewma(x, com, **kw)["mean"]
    my = ewma(y, com, **kw)["mean"]
    return xy - mx[:, :, None] * my[:, None, :]


@R.facet(
    "cov_definition",
    st.fixed_dictionaries(
        {
            "T": st.sampled_from([3, 12, 12, 30]),
            "o": cov_opts,
            "backend": st.sampled_from(BACKENDS),
            "tupled": st.sampled_from([False, False, True]),
        }
    ).flatmap(
        lambda d: st.fixed_dictionaries(
            dict(
                {k: st.just(v) for k, v in d.items()},
                x=history(N=2, lengths=(d["T"],), scales=(1, 1, 10)),
                y=history(N=3, lengths=(d["T"],), scales=(1,)),
            )
        )
    ),
    quick=240,
    thorough=5000,
    weight=4,
    secs=50,
)
def _(c):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ys, _, _ = to_np(get_cov(c["backend"], c["o"], c["tupled"])(arr(c["x"]), arr(c["y"])))
    e = cov_ref(c["x"], c["y"], c["o"])
    close(ys, e, rtol=1e-3, atol=2e-4 * scale_of(c["x"]) * scale_of(c["y"]), what="covariance")
    o = c["o"]
    return gap_or(c, o["adjust"] is not True, o["initial_value"] is not None, o["assume_centered"], o["min_periods"] > 1)


@R.facet(
    "cov_self",
    st.fixed_dictionaries(
        {
            "x": history(N=3, lengths=(12, 30), scales=(1,)),
            "decay": decays,
            "adjust": st.sampled_from(ADJ),
            "backend": st.sampled_from(BACKENDS),
        }
    ),
    quick=150,
    thorough=3000,
    weight=3,
    secs=40,
)
def _(c):
    """Covariance of a series with itself: symmetric, diagonal = variance, PSD without gaps."""
    o = {
        "decay": c["decay"],
        "adjust": c["adjust"],
        "ignore_na": True,
        "min_periods": 0,
        "initial_value": None,
        "assume_centered": False,
    }
    x = arr(c["x"])
    cov = np.asarray(get_cov(c["backend"], o, False)(x, x)[0], dtype=np.float64)
    var = np.asarray(get_var(c["backend"], c["decay"], c["adjust"])(x)[0], dtype=np.float64)
    tol = 3e-4 * scale_of(c["x"]) ** 2
    close(cov, np.swapaxes(cov, 1, 2), rtol=1e-6, atol=1e-6 * scale_of(c["x"]) ** 2, what="symmetry")
    d = np.einsum("tii->ti", cov)
    seen = np.cumsum(~np.isnan(x), axis=0) > 0
    close(np.where(seen, d, 0.0), np.where(seen, var, 0.0), rtol=1e-3, atol=tol, what="diagonal = variance")
    assert np.isnan(d[~seen]).all(), "a value before the first observation"
    if not np.isnan(x).any():
        assert (np.linalg.eigvalsh(cov) > -tol).all(), "not positive semi-definite"
        return "complete data"
    return gap_or(c)


# --------------------------------------------------------------- long and wide histories


@R.facet(
    "long_history",
    st.fixed_dictionaries(
        {
            "backend": st.sampled_from(BACKENDS),
            "what": st.sampled_from(["var", "var", "cov"]),
            "decay": st.sampled_from([["com", 100.0], ["alpha", 0.1], ["com", 100.0], ["com", 20.0], ["com", 0.3], ["alpha", 1.0]]),
            "adjust": st.sampled_from(ADJ),
            "ignore_na": st.booleans(),
            "min_periods": st.sampled_from([0, 1, 30, 300]),
            "d": long_case(lengths=(300, 700), columns=(1, 3, 20), scales=(1,)),
        }
    ),
    quick=100,
    thorough=2000,
    weight=4,
    secs=60,
)
def _(c):
    x = long_data(c["d"])
    tol = 2e-4 * scale_of(x) ** 2
    if c["what"] == "var":
        ys, _, _ = to_np(get_var(c["backend"], c["decay"], c["adjust"])(x.astype(np.float32)))
        close(ys, ewmvar(x, com_of(c["decay"]), c["adjust"]), rtol=2e-3, atol=tol, what="variance")
        assert (ys >= 0).all(), "negative variance"
    else:
        o = dict({k: c[k] for k in ("decay", "adjust", "ignore_na", "min_periods")}, initial_value=None, assume_centered=False)
        x = x[:, :4]
        y = long_data(c["d"], 1)[:, :3]
        f = get_cov(c["backend"], o, False)
        ys, _, _ = to_np(f(x.astype(np.float32), y.astype(np.float32)))
        close(ys, cov_ref(x, y, o), rtol=2e-3, atol=tol, what="covariance")
    return "gap between observations" if mixed_gap(x) else "long"


# --------------------------------------------------------------- integers

import whole  # noqa: E402
from catalog import op  # noqa: E402

whole.register(R, op(["ewmvar", "ewmcov"]), quick=24)
whole.register_double(R, op(["ewmvar", "ewmcov"]), quick=20)
whole.register_scaled(R, ["ewmvar", "ewmcov"], quick=40)
