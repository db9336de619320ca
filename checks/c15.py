"""C15: ARMA filter and adaptive forecaster."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from common import arr, close, history, long_case, long_data, same, via
from harness import Registry
from run import cached, fx_scan, hk_scan, to_np

R = Registry(
    "C15",
    rule="at least one weight, a history longer than the orders and some noise that is not zero",
    assumptions=[
        "output weights with absolute sum at most 1.5, so that float32 follows the float64 recurrence; "
        "the first backend's filter is given at least one weight of each kind",
    ],
)
BACKENDS = ["haiku", "flax"]


def build_arma(backend, na, nb, batch):
    """coefficients are arguments, so that one compilation serves all of them"""
    if backend == "haiku":
        import haiku as hk
        from wax.modules import ARMA

        f = hk.transform_with_state(lambda a, b, e: ARMA(a, b)(e))

        def run(a, b, eps):
            p, s = f.init(jax.random.PRNGKey(0), a, b, eps[0])

            def body(s, e):
                y, s = f.apply(p, s, None, a, b, e)
                return s, y

            return jax.lax.scan(body, s, eps)[1]

    else:
        from wax.flax.modules.arma import ARMA, create_arma

        def run(a, b, eps):
            m = (ARMA if len(a) % 2 else create_arma)(a, b)
            y0, s = m.init_with_output(jax.random.PRNGKey(0), eps[0])

            def body(s, e):
                y, s = m.apply(s, e, mutable=list(s))
                return s, y

            ys = jax.lax.scan(body, s, eps[1:])[1]
            return jnp.concatenate([y0[None], ys])

    return jax.jit(run)


arma = cached(build_arma)


def reference(a, b, eps):
    """y[t] = eps[t] + sum a[i] y[t - na + i] + sum b[j] eps[t - nb + j]"""
    T, na, nb = len(eps), len(a), len(b)
    y = np.zeros(eps.shape)
    for t in range(T):
        v = eps[t].astype(float).copy() if eps.ndim > 1 else float(eps[t])
        for i in range(na):
            if t - na + i >= 0:
                v = v + a[i] * y[t - na + i]
        for j in range(nb):
            if t - nb + j >= 0:
                v = v + b[j] * eps[t - nb + j]
        y[t] = np.where(np.isfinite(v), v, 0.0)
    return y


weights = st.lists(st.integers(-16, 16).map(lambda k: k / 16), min_size=1, max_size=4)


@st.composite
def arma_case(draw, nan=True):
    backend = draw(st.sampled_from(BACKENDS))
    a, b = draw(weights), draw(weights)
    if backend == "flax":
        which = draw(st.integers(0, 5))
        a, b = ([] if which == 0 else a), ([] if which == 1 else b)
    s = sum(abs(v) for v in a)
    if s > 1.5:
        a = [v / 4 for v in a]
    shape = draw(st.sampled_from([[], [3], [2, 2]]))
    n = int(np.prod(shape)) if shape else 1
    eps = draw(history(n, lengths=[1, 3, 8, 8, 8, 20], nan=nan))
    return {"backend": backend, "a": a, "b": b, "shape": shape, "eps": eps}


def load(c):
    eps = arr(c["eps"])
    return arr(c["a"]), arr(c["b"]), eps.reshape([len(eps)] + c["shape"])


def why(c, eps):
    ok = len(eps) > max(len(c["a"]), len(c["b"])) and (np.nan_to_num(eps) != 0).any()
    return "history longer than the orders" if ok and any(c["a"] + c["b"]) else None


@R.facet("arma_recurrence", arma_case(), quick=1000, thorough=30000, weight=4, secs=80)
def _(c):
    a, b, eps = load(c)
    y = np.asarray(arma(c["backend"], len(a), len(b), c["shape"])(a, b, eps))
    e = reference(a, b, eps)
    close(y, e, rtol=1e-4, atol=1e-4 * max(1.0, np.abs(e).max()), what="ARMA output")
    return why(c, eps)


@R.facet("arma_linear", st.tuples(arma_case(nan=False), st.integers(-8, 8)), quick=400, thorough=10000, weight=2, secs=60)
def _(k):
    c, f = k
    a, b, eps = load(c)
    run = arma(c["backend"], len(a), len(b), c["shape"])
    other = np.roll(eps, 1, axis=0) * np.float32(0.5) + np.float32(1)
    y, z = np.asarray(run(a, b, eps)), np.asarray(run(a, b, other))
    w = np.asarray(run(a, b, (eps * np.float32(f / 4) + other).astype(np.float32)))
    e = y * (f / 4) + z
    close(w, e, rtol=1e-4, atol=2e-4 * max(1.0, np.abs(y).max() * abs(f), np.abs(z).max()), what="ARMA of a combination")
    if (eps.ndim > 1) and eps.shape[-1] > 1:
        # components do not mix
        one = np.zeros_like(eps)
        one[..., 0] = eps[..., 0]
        v = np.asarray(run(a, b, one))
        close(v[..., 0], y[..., 0], rtol=1e-4, atol=1e-4 * max(1.0, np.abs(y).max()), what="first component alone")
        assert (v[..., 1:] == 0).all(), "a component leaks into another"
    return why(c, eps)


def build_snarimax(p, q, exo, shape):
    from wax.modules import SNARIMAX

    def fun(w, y, *x):
        seen = []

        def regressor(f):
            seen.append(f)
            return w[: y.size, : f.size] @ f

        pred, _ = SNARIMAX(p, q=q, regressor=regressor)(y, *x)
        return {"features": seen[0], "pred": pred}

    return hk_scan(fun)


snarimax = cached(build_snarimax)


@st.composite
def snarimax_case(draw):
    p, q = draw(st.integers(0, 4)), draw(st.integers(0, 3))
    exo = draw(st.integers(0, 2)) if p + q else draw(st.integers(1, 2))
    m = draw(st.sampled_from([1, 1, 2]))
    y = draw(history(m, lengths=[1, 3, 9, 9, 16], scales=[1]))
    T = len(y)
    from common import matrix

    x = draw(matrix(T, exo)) if exo else None
    w = draw(st.lists(st.lists(st.integers(-4, 4).map(lambda k: k / 16), min_size=16, max_size=16), min_size=2, max_size=2))
    return {"p": p, "q": q, "m": m, "y": y, "x": x, "w": w}


@R.facet("forecaster_features", snarimax_case(), quick=500, thorough=15000, weight=4, secs=80)
def _(c):
    y, w = arr(c["y"]), arr(c["w"])
    p, q, m = c["p"], c["q"], c["m"]
    exo = 0 if c["x"] is None else len(c["x"][0])
    args = [y] if not exo else [y, arr(c["x"])]
    T = len(y)
    ww = np.broadcast_to(w, (T,) + w.shape)
    out = to_np(snarimax(p, q, exo, [m])(ww, *args)[0])
    errs = []
    for t in range(T):
        parts = [np.asarray(args[1][t], float)] if exo else []
        past = [errs[s] if s >= 0 else np.zeros(m) for s in range(t - q, t)]
        lags = [y[s].astype(float) if s >= 0 else np.full(m, np.nan) for s in range(t - p + 1, t + 1)]
        f = np.concatenate(parts + past + lags) if parts + past + lags else np.zeros(0)
        f = np.where(np.isfinite(f), f, 0.0)
        pred = w[:m, : len(f)].astype(float) @ f
        close(out["features"][t], f, rtol=1e-3, atol=1e-3 * max(1, np.abs(f).max(initial=0)), what=f"regressors at step {t}")
        close(out["pred"][t], pred, rtol=1e-3, atol=1e-3 * max(1, np.abs(f).max(initial=0)), what=f"forecast at step {t}")
        errs.append(y[t] - pred)
    return "longer than the orders" if T > max(p, q) and p + q else None


def build_flax_snarimax(lx, ly, target):
    from wax.flax.modules.snarimax import SNARIMAX

    return fx_scan(lambda: via(SNARIMAX)(lags_x=lx, lags_y=ly, regressor=lambda f: f))


flax_snarimax = cached(build_flax_snarimax)


@st.composite
def flax_snarimax_case(draw):
    m = draw(st.integers(1, 3))
    x = draw(history(m, lengths=[1, 3, 8, 12], scales=[1]))
    from common import matrix

    target = draw(st.booleans())
    return {
        "lx": draw(st.integers(0, 3)),
        "ly": draw(st.integers(0, 3)),
        "x": x,
        "y": draw(matrix(len(x), m)) if target else None,
    }


@R.facet("flax_forecaster_features", flax_snarimax_case(), quick=300, thorough=8000, weight=2, secs=60)
def _(c):
    x = arr(c["x"])
    T, m = x.shape
    lx, ly = c["lx"], c["ly"] if c["y"] is not None else 0
    args = [x] if c["y"] is None else [x, arr(c["y"])]
    out = np.asarray(flax_snarimax(c["lx"], c["ly"], c["y"] is not None)(*args)[0])
    d = None if c["y"] is None else args[1] - x
    for t in range(T):
        f = [x[s] if s >= 0 else np.zeros(m) for s in range(t - lx + 1, t + 1)]
        f += [d[s] if s >= 0 else np.zeros(m) for s in range(t - ly + 1, t + 1)] if ly else []
        f = np.concatenate(f + [x[t]])
        f = np.where(np.isfinite(f), f, 0.0)
        close(out[t].reshape(f.shape), f, rtol=1e-6, atol=1e-6, what=f"regressors at step {t}")
    return "longer than the orders" if T > max(lx, ly) and lx + ly else None


@R.facet("forecast_of_lagged_targets", snarimax_case(), quick=200, thorough=5000, weight=2, secs=60)
def _(c):
    """fed with lagged targets, as documented, the forecast never uses the target of the step"""
    y, w = arr(c["y"]), arr(c["w"])
    p, q, m = c["p"], c["q"], c["m"]
    T = len(y)
    if p + q == 0 or T < 2:
        return None
    run = snarimax(p, q, 0, [m])
    lagged = np.concatenate([np.zeros((1, m), np.float32), y[:-1]])
    ww = np.broadcast_to(w, (T,) + w.shape)
    a = np.asarray(run(ww, lagged)[0]["pred"])
    other = y.copy()
    other[-1] = 1e4
    lagged2 = np.concatenate([np.zeros((1, m), np.float32), other[:-1]])
    b = np.asarray(run(ww, lagged2)[0]["pred"])
    same(a, b, "forecasts")
    z = other.copy()
    z[0] = 77.0
    lagged3 = np.concatenate([np.zeros((1, m), np.float32), z[:-1]])
    d = np.asarray(run(ww, lagged3)[0]["pred"])
    same(d[0], a[0], "first forecast")
    return "longer than the orders" if T > max(p, q) else None


# --------------------------------------------------------------- long histories, high orders


def small_weights(seed, n, total):
    w = np.random.default_rng([seed, n]).integers(-16, 17, n) / 16.0
    return (w * (total / max(1.0, np.abs(w).sum()))).astype(np.float32)


@R.facet(
    "long_history",
    st.fixed_dictionaries(
        {
            "backend": st.sampled_from(BACKENDS),
            "na": st.sampled_from([1, 2, 7, 24]),
            "nb": st.sampled_from([1, 3, 12, 40]),
            "total": st.sampled_from([0.5, 0.9, 1.0]),
            "d": long_case(lengths=(300, 700), columns=(1, 3, 20)),
        }
    ),
    quick=40,
    thorough=1200,
    weight=2,
    secs=60,
)
def _(c):
    eps = long_data(c["d"]).astype(np.float32)
    a, b = small_weights(c["d"]["seed"], c["na"], c["total"]), small_weights(c["d"]["seed"] + 1, c["nb"], 3.0)
    y = np.asarray(arma(c["backend"], len(a), len(b), list(eps.shape[1:]))(a, b, eps))
    e = reference(a, b, eps)
    close(y, e, rtol=1e-3, atol=3e-4 * max(1.0, np.abs(e).max()), what="ARMA output")
    return "longer than the orders" if np.nan_to_num(eps).any() else None


@R.facet(
    "long_forecaster",
    st.fixed_dictionaries(
        {
            "p": st.sampled_from([0, 1, 5, 12]),
            "q": st.sampled_from([0, 1, 4, 10]),
            "m": st.sampled_from([1, 3]),
            "exo": st.sampled_from([0, 2]),
            "d": long_case(lengths=(300,), columns=(5,), scales=(1,)),
        }
    ),
    quick=30,
    thorough=1200,
    weight=2,
    secs=60,
)
def _(c):
    p, q, m, exo = c["p"], c["q"], c["m"], c["exo"]
    if p + q + exo == 0:
        return None
    data = long_data(c["d"]).astype(np.float32)
    # the errors feed the next forecasts: no missing target, else they are missing from then on
    y = np.nan_to_num(data[:, :m])
    args = [y] + ([data[:, 3 : 3 + exo]] if exo else [])
    T, n = len(y), exo + m * (p + q)
    # small weights on the past errors: the recursion must not amplify rounding
    w = (np.random.default_rng(c["d"]["seed"]).integers(-4, 5, (m, n)) / 16.0 / max(1, n / 2)).astype(np.float32)
    out = to_np(snarimax(p, q, exo, [m])(np.broadcast_to(w, (T,) + w.shape), *args)[0])
    errs, F, P = [], [], []
    for t in range(T):
        parts = [np.asarray(args[1][t], float)] if exo else []
        parts += [errs[s] if s >= 0 else np.zeros(m) for s in range(t - q, t)]
        parts += [y[s].astype(float) if s >= 0 else np.full(m, np.nan) for s in range(t - p + 1, t + 1)]
        f = np.concatenate(parts)
        F.append(np.where(np.isfinite(f), f, 0.0))
        P.append(w.astype(float) @ F[-1])
        errs.append(y[t] - P[-1])
    s = max(1.0, np.abs(F).max())
    close(out["features"], np.stack(F), rtol=1e-3, atol=1e-3 * s, what="regressors")
    close(out["pred"], np.stack(P), rtol=1e-3, atol=1e-3 * s, what="forecasts")
    return "longer than the orders"


# --------------------------------------------------------------- integers

import whole  # noqa: E402
from catalog import op as catalog_op  # noqa: E402

whole.register(R, catalog_op(["arma", "snarimax"]), backends=["haiku"], quick=20)
whole.register_double(R, catalog_op(["arma", "snarimax"]), backends=["haiku"], quick=16)
whole.register_scaled(R, ["arma"], backends=["haiku"], quick=24)
