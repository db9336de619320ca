"""C08: exponential moving average."""
import math

import jax
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from common import arr, close, history, long_case, long_data, mixed_gap, scale_of, via
from harness import Registry
from oracles import com_of, ewma
from run import cached, fx_scan, hk_scan, key, to_np

R = Registry(
    "C08",
    rule="a column has a gap between two observations, or an option away from its default "
    "(initial value, minimum count, adjustment mode) changes the result",
    assumptions=["decays with alpha in [0.02, 1]; float32 arithmetic, tolerance 1e-4 of the data scale"],
)

DECAYS = [["alpha", 0.5], ["com", 2.0], ["alpha", 0.1], ["com", 5.0], ["com", 0.3], ["alpha", 1.0], ["com", 40.0]]
opts = st.fixed_dictionaries(
    {
        "decay": st.sampled_from(DECAYS),
        "adjust": st.sampled_from([True, False, "linear"]),
        "ignore_na": st.booleans(),
        "min_periods": st.sampled_from([0, 1, 2, 5]),
        "initial_value": st.sampled_from([None, 0.0, 1.5]),
    }
)


def kw(o):
    d = {k: o[k] for k in ("adjust", "ignore_na", "min_periods")}
    d["initial_value"] = math.nan if o["initial_value"] is None else o["initial_value"]
    return d


def expected(x, o, com=None):
    return ewma(x, com_of(o["decay"]) if com is None else com, **kw(o))


def build(backend, o, info):
    mk = dict(kw(o), return_info=info)
    mk[o["decay"][0]] = o["decay"][1]
    if backend == "haiku":
        from wax.modules import EWMA

        return hk_scan(lambda x: EWMA(**mk)(x))
    from wax.flax.modules import EWMA as FEWMA

    return fx_scan(lambda: via(FEWMA)(**mk))


get = cached(build)


def why(x, o):
    if mixed_gap(x):
        return "gap between observations"
    if o["initial_value"] is not None or o["adjust"] is not True or o["min_periods"] > 1:
        return "non-default options"


case = st.fixed_dictionaries({"x": history(), "o": opts, "info": st.booleans()})


def against_definition(backend, c):
    x = arr(c["x"])
    ys, state, _ = to_np(get(backend, c["o"], c["info"])(x))
    e = expected(c["x"], c["o"])
    tol = 1e-4 * max(scale_of(c["x"]), 2.0)
    if c["info"]:
        ys, info = ys
        close(info["nobs"], e["nobs"], what="nobs")
        close(info["com_eff"], e["com_eff"], rtol=1e-3, atol=1e-3, what="com_eff")
    close(ys, e["mean"], rtol=1e-4, atol=tol, what="mean")
    return why(c["x"], c["o"])


@R.facet("haiku_definition", case, quick=260, thorough=6000, weight=3, secs=45)
def _(c):
    return against_definition("haiku", c)


@R.facet("flax_definition", case, quick=260, thorough=6000, weight=3, secs=45)
def _(c):
    return against_definition("flax", c)


pd_case = st.fixed_dictionaries(
    {
        "x": history(scales=(1, 1, 100)),
        "decay": st.sampled_from(DECAYS),
        "adjust": st.booleans(),
        "ignore_na": st.booleans(),
        "min_periods": st.integers(0, 4),
        "backend": st.sampled_from(["haiku", "flax"]),
    }
)


@R.facet("pandas", pd_case, quick=200, thorough=5000, weight=2.5, secs=45)
def _(c):
    o = {k: c[k] for k in ("decay", "adjust", "ignore_na", "min_periods")}
    o["initial_value"] = None
    ys, _, _ = to_np(get(c["backend"], o, False)(arr(c["x"])))
    ref = (
        pd.DataFrame(np.array(c["x"], dtype=np.float64))
        .ewm(
            adjust=c["adjust"],
            ignore_na=c["ignore_na"],
            min_periods=c["min_periods"],
            **{c["decay"][0]: c["decay"][1]},
        )
        .mean()
    )
    close(ys, ref.values, rtol=1e-4, atol=1e-4 * scale_of(c["x"]), what="pandas")
    return why(c["x"], o)


# --------------------------------------------------------------- numba

numba_opts = st.tuples(
    st.sampled_from([["alpha", 0.5], ["com", 5.0], ["com", 0.3]]),
    st.sampled_from([True, False, "linear"]),
    st.booleans(),
    st.sampled_from([[0, None], [2, None], [1, 1.5]]),
).map(
    lambda t: {
        "decay": t[0],
        "adjust": t[1],
        "ignore_na": t[2],
        "min_periods": t[3][0],
        "initial_value": t[3][1],
    }
)


def build_numba(o):
    from wax.numba.ewma_numba import ewma as newma

    return newma(**kw(o), **{o["decay"][0]: o["decay"][1]})


get_numba = cached(build_numba, 400)


@R.facet(
    "numba_definition",
    st.fixed_dictionaries(
        {
            "o": numba_opts,
            # several histories per compiled configuration
            "xs": st.lists(history(lengths=(1, 3, 12, 50)), min_size=3, max_size=6),
            "one_d": st.booleans(),
        }
    ),
    quick=40,
    thorough=600,
    weight=4,
    secs=45,
)
def _(c):
    f = get_numba(c["o"])
    tag = None
    for x in c["xs"]:
        a = np.array(x, dtype=np.float64)
        if c["one_d"]:
            a = np.ascontiguousarray(a[:, 0])
        before = a.copy()
        res, state = f(a)
        e = expected(a, c["o"])
        assert np.array_equal(a, before, equal_nan=True), "input modified"
        close(res, e["mean"], rtol=1e-7, atol=1e-7 * scale_of(x), what="numba mean")
        close(np.ravel(state.nobs), np.ravel(e["nobs"][-1]), what="numba nobs")
        tag = tag or why(x, c["o"])
    return tag


# --------------------------------------------------------------- decay parameter, shapes, linear


@R.facet(
    "decay_parameter",
    st.fixed_dictionaries(
        {
            "x": history(lengths=(12,), scales=(1,)),
            "o": opts,
            "com": st.sampled_from([0.4, 1.0, 3.0, 9.0]),
            "backend": st.sampled_from(["haiku", "flax"]),
        }
    ),
    quick=120,
    thorough=3000,
    weight=2,
    secs=40,
)
def _(c):
    """The decay is a parameter: replacing it gives the filter of the new decay."""
    x = arr(c["x"])
    o = dict(c["o"], decay=["com", 2.0])
    y = np.asarray(_with_param(c["backend"], o)(np.float32(math.log(c["com"])), x))
    e = expected(c["x"], o, com=c["com"])
    close(y, e["mean"], rtol=1e-3, atol=1e-3 * scale_of(c["x"]), what="mean at new decay")
    return "decay differs from the constructor" if c["com"] != 2.0 else None


def _build_param(backend, o):
    import haiku as hk
    from jax import lax, numpy as jnp

    mk = dict(kw(o), com=2.0)
    if backend == "haiku":
        from wax.modules import EWMA

        f = hk.transform_with_state(lambda x: EWMA(**mk)(x))

        @jax.jit
        def run(v, xs):
            p, s = f.init(None, xs[0])
            p = jax.tree_util.tree_map(lambda a: jnp.full_like(a, v), p)

            def body(s, x):
                y, s = f.apply(p, s, None, x)
                return s, y

            return lax.scan(body, s, xs)[1]

        return run
    from wax.flax.modules import EWMA as FEWMA

    m = via(FEWMA)(**mk)

    @jax.jit
    def run(v, xs):
        var = dict(m.init(key(), xs[0]))
        p = jax.tree_util.tree_map(lambda a: jnp.full_like(a, v), var.pop("params"))
        # the empty state, spelled out by the public initial values of a fresh first call
        y0, s = m.apply({"params": p}, xs[0], mutable=["state"])

        def body(s, x):
            y, s = m.apply({"params": p, **s}, x, mutable=["state"])
            return dict(s), y

        ys = lax.scan(body, dict(s), xs[1:])[1]
        return jnp.concatenate([y0[None], ys])

    return run


_with_param = cached(_build_param)


@R.facet(
    "linear_mode",
    st.fixed_dictionaries(
        {
            "x": history(N=2, lengths=(12, 50), nan=False),
            "com": st.sampled_from([1.0, 3.0, 4.0, 9.0, 20.0, 100.0]),
            "backend": st.sampled_from(["haiku", "flax"]),
        }
    ),
    quick=80,
    thorough=2000,
    weight=1,
    secs=30,
)
def _(c):
    """Plain mean while the window fills, the non-adjusted filter afterwards."""
    o = {"decay": ["com", c["com"]], "adjust": "linear", "ignore_na": False, "min_periods": 0, "initial_value": None}
    ys, _, _ = to_np(get(c["backend"], o, False)(arr(c["x"])))
    x = np.array(c["x"], dtype=np.float64)
    k = int(c["com"]) + 1
    tol = 1e-4 * scale_of(c["x"])
    means = np.cumsum(x, axis=0) / np.arange(1, len(x) + 1)[:, None]
    close(ys[:k], means[:k], atol=tol, what="filling phase")
    if len(x) <= k:
        return None
    y = means[k - 1]
    a = 1.0 / (1.0 + c["com"])
    for t in range(k, len(x)):
        y = (1 - a) * y + a * x[t]
        close(ys[t], y, atol=tol, what=f"steady phase t={t}")
    return "window filled"


def _build_shape(backend, o, shape):
    return build(backend, o, False)


get_shape = cached(_build_shape)


@R.facet(
    "shapes",
    st.fixed_dictionaries(
        {
            "x": history(N=4, lengths=(5, 12)),
            "o": opts,
            "shape": st.sampled_from([[], [1], [2, 2], [4, 1], [4]]),
            "backend": st.sampled_from(["haiku", "flax"]),
        }
    ),
    quick=120,
    thorough=3000,
    weight=2,
    secs=40,
)
def _(c):
    """Any input shape: every component is filtered on its own."""
    a = arr(c["x"])
    n = int(np.prod(c["shape"])) if c["shape"] else 1
    xs = a[:, :n].reshape((len(a), *c["shape"]))
    ys, _, _ = to_np(get_shape(c["backend"], c["o"], c["shape"])(xs))
    e = expected(xs, c["o"])
    close(ys, e["mean"], rtol=1e-4, atol=1e-4 * max(2.0, scale_of(c["x"])), what="shape")
    return why(c["x"], c["o"]) if c["shape"] != [4] else None


@R.facet(
    "long_history",
    st.fixed_dictionaries(
        {
            "d": long_case(lengths=(600, 1300), columns=(2,)),
            "o": opts.map(lambda o: dict(o, decay=["com", 40.0] if o["decay"][1] != 5.0 else o["decay"])),
            # more observations than are usually waited for
            "wait": st.sampled_from([None, None, 60, 130, 256, 260, 400]),
            "backend": st.sampled_from(["haiku", "flax", "numba"]),
        }
    ),
    quick=40,
    thorough=600,
    weight=2,
    secs=40,
)
def _(c):
    x = long_data(c["d"]).astype(np.float32)
    o = c["o"] if c["wait"] is None else dict(c["o"], min_periods=c["wait"])
    e = expected(x, o)
    if c["backend"] == "numba":
        ys, state = get_numba(dict(o, initial_value=None))(x.astype(np.float64))
        e = expected(x, dict(o, initial_value=None))
        close(np.ravel(state.nobs), np.ravel(e["nobs"][-1]), what="nobs")
    else:
        (ys, info), _, _ = to_np(get(c["backend"], o, True)(x))
        close(info["nobs"], e["nobs"], what="nobs")
    close(ys, e["mean"], rtol=1e-3, atol=2e-3 * max(1.0, c["d"]["scale"]), what="long")
    return why(x.tolist(), o)


# --------------------------------------------------------------- integers

import whole  # noqa: E402
from catalog import op  # noqa: E402

whole.register(R, op(["ewma"]), quick=24)
whole.register_double(R, op(["ewma"]), quick=24)
whole.register_scaled(R, ["ewma"], quick=40)
