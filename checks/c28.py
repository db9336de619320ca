"""C28: missing observations never poison gradients or other columns."""
import flax.linen as nn
import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np
from flax.core.scope import DenyList
from hypothesis import strategies as st

import catalog
import oracles
from common import NAN, arr, floats_list, has_nan, history, matrix, same, via
from drivers import one_pass, plain
from harness import Registry
from run import cached, key, to_np

R = Registry(
    "C28",
    rule="the history has missing observations next to valid ones (gradients), or an altered column beside "
    "other ones that have outputs",
    assumptions=[
        "gradients are taken in double precision of a weighted sum of the finite outputs; an entry is compared "
        "with the central difference where the differences at two step sizes agree (the loss is smooth there), "
        "and must be finite everywhere",
        "infinite observations are judged for column isolation only, not for gradients",
    ],
)
BACKENDS = ["haiku", "flax"]
H = 1e-6


class FxChain(nn.Module):
    ops: tuple

    @nn.compact
    def __call__(self, x):
        out = x
        for o in self.ops:
            out, x = catalog.fx_apply(o, x)
        return out


def unrolled(backend, ops, n):
    """-> (params, run(params, xs)): every output of the last op, from the empty state"""
    x0 = jnp.zeros(n)
    if backend == "haiku":

        def fun(x):
            out = x
            for o in ops:
                out, x = catalog.hk_apply(o, x)
            return out

        f = hk.transform_with_state(fun)
        params, state = f.init(key(), x0)

        def run(p, xs):
            def body(s, x):
                y, s = f.apply(p, s, None, x)
                return s, y

            return jax.lax.scan(body, state, xs)[1]

        return params, run
    m = FxChain(tuple(tuple(o) for o in ops))
    params = m.init(key(), x0).get("params", {})

    def run(p, xs):
        mutable = DenyList(["params"])
        y0, s = m.apply({"params": p}, xs[0], mutable=mutable)

        def body(s, x):
            y, s = m.apply({"params": p, **s}, x, mutable=mutable)
            return s, y

        s, ys = jax.lax.scan(body, s, xs[1:])
        return jnp.concatenate([jnp.asarray(y0)[None], ys])

    return params, run


def build(backend, ops, T, n):
    with jax.enable_x64(True):
        params, run = unrolled(backend, ops, n)
        flat, tree = jax.tree_util.tree_flatten(params)

    def outputs(theta, x):
        return run(tree.unflatten(list(theta)), x)

    def loss(theta, x, w):
        y = outputs(theta, x)
        return jnp.sum(jnp.where(jnp.isfinite(y), y, 0.0) * w.reshape((-1,) + (1,) * (y.ndim - 1)))

    @jax.jit
    def grads(theta, x, w):
        return jax.grad(loss, argnums=(0, 1))(theta, x, w)

    @jax.jit
    def losses(thetas, xs, w):
        return jax.vmap(lambda t, x: loss(t, x, w))(thetas, xs)

    return {"n": len(flat), "out": jax.jit(outputs), "grads": grads, "losses": losses}


get = cached(lambda *a: build(*a), maxsize=200)


def numerical(losses, theta, x, w, h):
    """central differences with respect to every parameter and every observed value"""
    P, (T, N) = len(theta), x.shape
    k = P + T * N
    thetas, xs = np.tile(theta, (2 * k, 1)), np.tile(x, (2 * k, 1, 1))
    for i in range(k):
        for s, row in ((1, i), (-1, k + i)):
            if i < P:
                thetas[row, i] += s * h
            else:
                xs[row, (i - P) // N, (i - P) % N] += s * h
    v = np.asarray(losses(thetas, xs, w), np.float64)
    return (v[:k] - v[k:]) / (2 * h)


def weights(T):
    return np.array([((7 * t) % 5 + 1) * (1 if t % 3 else -1) / 4 for t in range(T)])


def judge(c, theta=None):
    x = arr(c["x"], np.float64)
    T, N = x.shape
    g = get(c["backend"], c["ops"], T, N)
    w = weights(T)
    with jax.enable_x64(True):
        theta = np.full(g["n"], np.log(c["com"]))
        y = np.asarray(g["out"](theta, x))
        gp, gx = [np.asarray(v) for v in g["grads"](theta, x, w)]
        a = np.concatenate([gp, gx.ravel()])
        names = [f"parameter {i}" for i in range(g["n"])] + [f"x[{t},{j}]" for t in range(T) for j in range(N)]
        bad = [n for n, v in zip(names, a) if not np.isfinite(v)]
        assert not bad, f"gradient is not finite for {bad[:8]} (outputs {y.reshape(T, -1)[:, :6]})"
        missing = np.concatenate([np.zeros(g["n"], bool), np.isnan(x).ravel()])
        assert (a[missing] == 0).all(), f"non-zero gradient for missing observations {gx[np.isnan(x)]}"
        n1 = numerical(g["losses"], theta, x, w, H)
        n2 = numerical(g["losses"], theta, x, w, 4 * H)
    scale = 1 + np.abs(n1)
    smooth = ~missing & (np.abs(n1 - n2) <= 1e-5 * scale) & (np.abs(n1) < 1e6)
    off = [(n, u, v) for n, u, v, s, ok in zip(names, a, n1, scale, smooth) if ok and abs(u - v) > 1e-4 * s]
    assert not off, f"gradient differs from the numerical derivative (name, gradient, numerical): {off[:6]}"
    if not has_nan(c["x"]) or not np.isfinite(y).any():
        return None
    return "mixed" if smooth.any() else None


@st.composite
def gappy(draw, N=3, lengths=(4, 8), positive=False):
    """mostly valid histories, leading gaps and whole missing columns included"""
    T = draw(st.sampled_from(list(lengths)))
    x = draw(matrix(T, N, nan=False, positive=positive))
    for _ in range(draw(st.integers(0, 3))):
        j = draw(st.integers(0, N - 1))
        a = draw(st.one_of(st.just(0), st.integers(0, T - 1)))
        b = draw(st.one_of(st.just(T), st.integers(a, T)))
        for t in range(a, b):
            x[t][j] = NAN
    for t, j in draw(st.lists(st.tuples(st.integers(0, T - 1), st.integers(0, N - 1)), max_size=6)):
        x[t][j] = NAN
    return x


COMS = st.sampled_from([0.3, 0.7, 1.6, 2.3, 4.7, 11.3])
DECAY = ["com", 2.3]  # placeholder: the parameter itself is set to the drawn value


def ewma_opts(draw):
    return {
        "decay": DECAY,
        "adjust": draw(catalog.adjust),
        "ignore_na": draw(st.booleans()),
        "min_periods": draw(st.sampled_from([0, 0, 2])),
        "initial_value": draw(st.sampled_from(["nan", "nan", 1.5])),
    }


def cov_opts(draw):
    o = ewma_opts(draw)
    o.pop("initial_value")
    o["assume_centered"] = draw(st.booleans())
    return o


@st.composite
def single(draw, name, backends=BACKENDS, N=3):
    o = {"ewma": ewma_opts, "ewmcov": cov_opts, "ewmvar": lambda d: {"decay": DECAY, "adjust": d(catalog.adjust)}}
    ops = [[name, o[name](draw)]]
    return {"backend": draw(st.sampled_from(backends)), "ops": ops, "com": draw(COMS), "x": draw(gappy(N))}


@R.facet("ewma", single("ewma"), quick=300, thorough=10000, weight=4, secs=90)
def _(c):
    """moving average, all options: gradient for the decay and the observations"""
    return judge(c)


@R.facet("ewmvar", single("ewmvar"), quick=200, thorough=6000, weight=3, secs=60)
def _(c):
    """moving variance"""
    return judge(c)


@R.facet("ewmcov", single("ewmcov", N=2), quick=150, thorough=8000, weight=5, secs=90)
def _(c):
    """moving covariance"""
    return judge(c)


@R.facet("reference", single("ewma"), quick=200, thorough=6000, weight=3, secs=90)
def _(c):
    """moving average: against the derivative of an independent implementation"""
    x = arr(c["x"], np.float64)
    T, N = x.shape
    g = get(c["backend"], c["ops"], T, N)
    w, o = weights(T), c["ops"][0][1]
    with jax.enable_x64(True):
        gp = np.asarray(g["grads"](np.full(g["n"], np.log(c["com"])), x, w)[0])
    iv = NAN if o["initial_value"] == "nan" else o["initial_value"]

    def loss(lc):
        y = oracles.ewma(x, float(np.exp(lc)), o["adjust"], o["ignore_na"], o["min_periods"], iv)["mean"]
        return float(np.sum(np.where(np.isfinite(y), y, 0) * w[:, None]))

    lc = np.log(c["com"])
    n1, n2 = [(loss(lc + h) - loss(lc - h)) / (2 * h) for h in (H, 4 * H)]
    assert np.isfinite(gp).all(), f"gradient of the decay is {gp}"
    if abs(n1 - n2) <= 1e-5 * (1 + abs(n1)):
        assert abs(gp[0] - n1) <= 1e-4 * (1 + abs(n1)), f"gradient of the decay {gp[0]}, of the definition {n1}"
    return "mixed" if has_nan(c["x"]) and n1 != 0 else None


@st.composite
def chain_case(draw):
    simple = catalog.op(["buffer", "lag", "diff", "pct", "rolling", "ffill", "fill"], hk=False)
    smooth = st.composite(lambda d: ["ewma", ewma_opts(d)])()
    var = st.composite(lambda d: ["ewmvar", {"decay": DECAY, "adjust": d(catalog.adjust)}])()
    ops = draw(
        st.one_of(
            st.tuples(simple),
            st.tuples(smooth, simple),
            st.tuples(simple, smooth),
            st.tuples(simple, var),
            st.tuples(smooth, var),
            st.tuples(smooth, smooth),
        )
    )
    return {
        "backend": draw(st.sampled_from(BACKENDS)),
        "ops": [list(o) for o in ops],
        "com": draw(st.sampled_from([0.7, 2.3, 4.7])),
        "x": draw(gappy(2, lengths=(6,), positive=True)),
    }


@R.facet("chains", chain_case(), quick=120, thorough=5000, weight=6, secs=100)
def _(c):
    """window and fill operators alone, before and after a trainable filter (positive data)"""
    # a relative change from a zero or infinite value has no finite derivative
    x = arr(c["x"], np.float64)
    names = [o[0] for o in c["ops"]]
    g = get(c["backend"], c["ops"], *x.shape)
    with jax.enable_x64(True):
        y = np.asarray(g["out"](np.full(g["n"], np.log(c["com"])), x))
    if "pct" in names and (np.isinf(y).any() or c["ops"][0][0] in ("buffer", "fill", "lag", "diff")):
        return None
    return judge(c)


# ------------------------------------------------------------------ masked statistics


def mask_build(backend, name, axis, centered):
    if backend == "haiku":
        from wax.modules.mask_mean import MaskMean
        from wax.modules.mask_std import MaskStd
    else:
        from wax.flax.modules import MaskMean, MaskStd

        MaskMean, MaskStd = via(MaskMean, MaskStd)
    make = (lambda: MaskMean(axis=axis)) if name == "mean" else (lambda: MaskStd(axis=axis, assume_centered=centered))
    if backend == "haiku":
        f = hk.transform_with_state(lambda m, x: make()(m, x))

        def call(m, x):
            return f.apply({}, {}, None, m, x)[0]
    else:
        mod = make()

        def call(m, x):
            return mod.apply({}, m, x)

    def loss(x, m, w):
        y = jnp.ravel(call(m, x))
        return jnp.sum(jnp.where(jnp.isfinite(y), y, 0.0) * w[: y.size])

    return {
        "grad": jax.jit(jax.grad(loss)),
        "losses": jax.jit(lambda xs, m, w: jax.vmap(lambda x: loss(x, m, w))(xs)),
    }


mask_get = cached(mask_build)


@st.composite
def mask_case(draw):
    T, N = draw(st.sampled_from([(4, 3), (3, 4)]))
    mask = [[draw(st.booleans()) for _ in range(N)] for _ in range(T)]
    return {
        "backend": draw(st.sampled_from(BACKENDS)),
        "name": draw(st.sampled_from(["mean", "std"])),
        "axis": draw(st.sampled_from([None, 0, 1])),
        "centered": draw(st.booleans()),
        "x": draw(matrix(T, N)),
        "mask": mask,
    }


@R.facet("masked", mask_case(), quick=400, thorough=15000, weight=2, secs=60)
def _(c):
    """masked mean and deviation: gradient for the data"""
    x, m = arr(c["x"], np.float64), np.array(c["mask"], bool)
    n = m.sum(axis=c["axis"])
    if (n == 0).any():
        return None
    g = mask_get(c["backend"], c["name"], c["axis"], c["centered"])
    w = np.array([1.0, -0.5, 2.0, 0.25])
    with jax.enable_x64(True):
        a = np.asarray(g["grad"](x, m, w)).ravel()
        T, N = x.shape
        assert np.isfinite(a).all(), f"gradient {a.reshape(T, N)}"
        unused = (np.isnan(x) | ~m).ravel()
        assert (a[unused] == 0).all(), f"gradient for masked or missing entries {a.reshape(T, N)}"
        nums = []
        for h in (H, 4 * H):
            xs = np.tile(x, (2 * T * N, 1, 1))
            for i in range(T * N):
                xs[i, i // N, i % N] += h
                xs[T * N + i, i // N, i % N] -= h
            v = np.asarray(g["losses"](xs, m, w))
            nums.append((v[: T * N] - v[T * N :]) / (2 * h))
    n1, n2 = nums
    smooth = ~unused & (np.abs(n1 - n2) <= 1e-5 * (1 + np.abs(n1)))
    off = np.abs(a - n1) > 1e-4 * (1 + np.abs(n1))
    assert not (smooth & off).any(), f"gradient {a.reshape(T, N)}, numerical {n1.reshape(T, N)}"
    return "mixed" if unused.any() and smooth.any() else None


# ------------------------------------------------------------------ columns

BAD = {"nan": np.nan, "inf": np.inf, "-inf": -np.inf, "big": 3e30}
COL_OPS = {
    "haiku": [k for k in list(catalog.OPTS) + ["arma"] if k != "changed"],
    "flax": [k for k in catalog.OPTS if k != "changed"],
}


@st.composite
def column_case(draw):
    b = draw(st.sampled_from(BACKENDS))
    base = catalog.op(COL_OPS[b], hk=b == "haiku")
    if b == "haiku":
        base = st.one_of(base, base, base, catalog.gated(catalog.op(catalog.VECTOR_OPS)))
    x = draw(history(3, lengths=[3, 8, 8, 20]))
    j = draw(st.integers(1, 2))
    z = [list(r) for r in x]
    how = draw(st.sampled_from(["other", "column", "spots"]))
    if how == "other":
        for t, v in enumerate(draw(floats_list(len(x)))):
            z[t][j] = v
    elif how == "column":
        v = float(BAD[draw(st.sampled_from(sorted(BAD)))])
        for t in range(draw(st.integers(0, len(x) - 1)), len(x)):
            z[t][j] = v
    else:
        for t in draw(st.lists(st.integers(0, len(x) - 1), min_size=1, max_size=4)):
            z[t][j] = float(BAD[draw(st.sampled_from(sorted(BAD)))])
    return {"backend": b, "prog": draw(st.lists(base, min_size=1, max_size=2)), "x": x, "z": z, "j": j}


@R.facet("columns", column_case(), quick=200, thorough=8000, weight=6, secs=100)
def _(c):
    """other values in one column: the outputs of all other columns are bit for bit the same"""
    x, z, j = arr(c["x"]), arr(c["z"]), c["j"]
    one = one_pass(c["backend"], c["prog"])

    def go(x):
        p, s = one.init(key(), x)
        return to_np(one.apply(p, to_np(plain(s)), x)[0])

    a, b = go(x), go(z)
    for i, (op, u, v) in enumerate(zip(c["prog"], a["outs"], b["outs"])):
        name = op[1]["inner"][0] if op[0] == "gate" else op[0]
        for u_, v_ in zip(jax.tree_util.tree_leaves(u), jax.tree_util.tree_leaves(v)):
            if u_.ndim == 1:
                same(u_, v_, f"output {i} ({name})")
            elif name == "ewmcov":
                same(np.delete(np.delete(u_, j, 1), j, 2), np.delete(np.delete(v_, j, 1), j, 2), f"output {i} ({name})")
            else:
                same(np.delete(u_, j, -1), np.delete(v_, j, -1), f"output {i} ({name}), column {j} dropped")
    return "changed" if not ((x == z) | (np.isnan(x) & np.isnan(z))).all() else None


@st.composite
def table_case(draw):
    c = draw(column_case())
    return {
        "x": c["x"],
        "z": c["z"],
        "j": c["j"],
        "route": draw(st.sampled_from(["numba"] * 4 + ["pandas", "xarray"])),
        "decay": draw(catalog.decay),
        "adjust": draw(catalog.adjust),
        "ignore_na": draw(st.booleans()),
        "min_periods": draw(st.integers(0, 3)),
    }


@R.facet("tables", table_case(), quick=50, thorough=3000, weight=3, secs=80)
def _(c):
    """accessors: one altered column of a table"""
    import pandas as pd
    import xarray as xr
    from wax.accessors import register_wax_accessors
    from wax.numba.ewma_numba import register_wax_numba

    register_wax_accessors()
    register_wax_numba()
    x, z, j = arr(c["x"]), arr(c["z"]), c["j"]
    t = pd.date_range("2021-01-01", periods=len(x), name="t")
    opt = dict([c["decay"]], adjust=c["adjust"], ignore_na=c["ignore_na"], min_periods=c["min_periods"])

    def run(v):
        if c["route"] == "numba":
            return pd.DataFrame(v.astype(np.float64), index=t, columns=list("abc")).wax_numba.ewm(**opt).mean().values
        if c["route"] == "pandas":
            return pd.DataFrame(v, index=t, columns=list("abc")).wax.ewm(**opt).mean().values
        return xr.DataArray(v, dims=("t", "c"), coords={"t": t}).wax.ewm(**opt).mean().values

    same(np.delete(run(x), j, 1), np.delete(run(z), j, 1), f"columns other than {j}")
    return c["route"]
