"""C03: causality."""
import jax
import numpy as np
from hypothesis import strategies as st

import c05
import catalog
from common import arr, close, history, long_case, long_data, matrix, same, tree_close
from drivers import fx_prog, fx_special, hk_prog, hk_special, nondivergent, one_pass, plain
from harness import Registry
from run import to_np

R = Registry(
    "C03",
    rule="a stateful program and a later observation that was really changed",
    assumptions=["same compiled code for the exact comparison; 1e-4 relative when the length changes"],
)
BAD = {"nan": np.nan, "inf": np.inf, "-inf": -np.inf, "big": 3e30}


@st.composite
def altered(draw, x, k):
    """other observations from step k on"""
    T, N = len(x), len(x[0])
    how = draw(st.sampled_from(["other", "nan", "inf", "-inf", "big", "spot"]))
    if how == "other":
        return x[:k] + draw(matrix(T - k, N))
    if how == "spot":
        y = [list(r) for r in x]
        t, j = draw(st.integers(k, T - 1)), draw(st.integers(0, N - 1))
        y[t][j] = float(BAD[draw(st.sampled_from(sorted(BAD)))])
        return y
    return x[:k] + [[float(BAD[how])] * N for _ in range(T - k)]


@st.composite
def case(draw, lengths=(2, 6, 12, 12), N=3):
    b = draw(st.sampled_from(["haiku", "flax"]))
    x = draw(history(N, lengths=list(lengths), scales=[1]))
    k = draw(st.integers(1, len(x) - 1))
    return {"backend": b, "prog": draw(hk_prog if b == "haiku" else fx_prog), "x": x, "k": k, "z": draw(altered(x, k))}


def go(c, x):
    one = one_pass(c["backend"], c["prog"])
    p, s = one.init(jax.random.PRNGKey(3), x)
    y, s2 = one.apply(p, to_np(plain(s)), x)
    return to_np(y)


def tree_same(a, b, what):
    la, lb = jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b)
    assert len(la) == len(lb), what
    for i, (u, v) in enumerate(zip(la, lb)):
        same(u, v, f"{what}[leaf {i}]")


def head(tree, k):
    return jax.tree_util.tree_map(lambda v: v[:k], tree)


@R.facet("altered_future", case(), quick=200, thorough=8000, weight=6, secs=100)
def _(c):
    """other later observations: all earlier outputs are bit for bit the same"""
    x, z, k = arr(c["x"]), arr(c["z"]), c["k"]
    a, b = go(c, x), go(c, z)
    tree_same(head(a, k), head(b, k), f"outputs before step {k}")
    return "changed" if not ((x == z) | (np.isnan(x) & np.isnan(z))).all() else None


@R.facet("truncated", case(lengths=(6, 12)), quick=80, thorough=3000, weight=4, secs=90)
def _(c):
    """without the later observations"""
    x, k = arr(c["x"]), c["k"]
    k = k if k in (1, 3, 5) else 4
    a = go(c, x)
    if not nondivergent(a):
        return None
    b = go(c, x[:k])
    tree_close(head(a, k), b, atol=1e-3, what=f"outputs of the first {k} steps")
    return "truncated"


@st.composite
def stream_case(draw):
    c = draw(c05.layout(max_axes=3, max_local=6, max_sec=6))
    c["cols"] = 2
    T = len(c["times"]["t_loc"])
    if T < 2:
        c["times"]["t_loc"] = c["times"]["t_loc"] + [c["times"]["t_loc"][-1] + 24]
        T = 2
    c["k"] = draw(st.integers(1, T - 1))
    c["x"] = {a: draw(matrix(len(t), 2)) for a, t in c["times"].items()}
    c["bad"] = draw(st.sampled_from(["nan", "big", "7"]))
    c["drop"] = draw(st.booleans())
    return c


def stream_module(d):
    import jax.numpy as jnp
    from wax.modules import EWMA, Buffer, Diff, Lag

    out = {}
    for name in sorted(d):
        v = jnp.reshape(d[name], (-1,))
        out[name] = (v, EWMA(com=2, name="e" + name)(v), Lag(1, name="l" + name)(v), Buffer(3, name="b" + name)(v))
    return out


@R.facet("multi_frequency", stream_case(), quick=60, thorough=2000, weight=6, secs=100)
def _(c):
    """streams: later local rows, and secondary rows stamped at or after the local time, do not count"""
    from wax.stream import Stream

    def run(times, x):
        d = dict(c, times=times)
        ds = c05.dataset(d, {f"v_{a}": ((a, "c"), arr(v)) for a, v in x.items()})
        f, xs = Stream(**c05.stream_args(c)).prepare(ds, stream_module)
        p, s = f.init(None, xs)
        y, _ = f.apply(p, s, None, xs)
        return to_np(y)

    k = c["k"]
    t_last = c["times"]["t_loc"][k - 1]
    times, x, changed = {}, {}, False
    for a, t in c["times"].items():
        future = [i >= k if a == "t_loc" else t[i] >= t_last for i in range(len(t))]
        bad = BAD.get(c["bad"], 7.0)
        changed |= any(future)
        if c["drop"] and a != "t_loc":
            keep = [i for i in range(len(t)) if not future[i]]
            if keep:
                times[a], x[a] = [t[i] for i in keep], [c["x"][a][i] for i in keep]
                continue
        times[a], x[a] = t, [[float(bad)] * 2 if future[i] else c["x"][a][i] for i in range(len(t))]
    a, b = run(c["times"], c["x"]), run(times, x)
    tree_close(head(a, k), head(b, k), what=f"outputs before step {k}")
    return "future rows changed" if changed else None


@R.facet(
    "tabular",
    case(lengths=(2, 6, 12)).flatmap(
        lambda c: st.fixed_dictionaries(
            {
                "c": st.just(c),
                "route": st.sampled_from(["numba"] * 5 + ["pandas", "xarray", "series"]),
                "decay": catalog.decay,
                "adjust": catalog.adjust,
                "ignore_na": st.booleans(),
                "min_periods": st.integers(0, 3),
            }
        )
    ),
    quick=100,
    thorough=4000,
    weight=3,
    secs=90,
)
def _(d):
    """accessors of data frames, series and data arrays"""
    import pandas as pd
    import xarray as xr
    from wax.accessors import register_wax_accessors
    from wax.numba.ewma_numba import register_wax_numba

    register_wax_accessors()
    register_wax_numba()
    c = d["c"]
    x, z, k = arr(c["x"]), arr(c["z"]), c["k"]
    t = pd.date_range("2021-01-01", periods=len(x), name="t")
    opt = dict([d["decay"]], adjust=d["adjust"], ignore_na=d["ignore_na"], min_periods=d["min_periods"])

    def run(v, t):
        if d["route"] == "numba":
            return pd.DataFrame(v.astype(np.float64), index=t, columns=list("abc")).wax_numba.ewm(**opt).mean().values
        if d["route"] == "pandas":
            return pd.DataFrame(v, index=t, columns=list("abc")).wax.ewm(**opt).mean().values
        if d["route"] == "series":
            return pd.Series(v[:, 0], index=t).wax.ewm(**opt).mean().values
        return xr.DataArray(v, dims=("t", "c"), coords={"t": t}).wax.ewm(**opt).mean().values

    a = run(x, t)
    same(a[:k], run(z, t)[:k], f"rows before {k}")
    close(run(x[:k], t[:k]), a[:k], what=f"first {k} rows alone")
    return d["route"]


@st.composite
def long_future(draw):
    b = draw(st.sampled_from(["haiku", "flax"]))
    return {
        "backend": b,
        "prog": draw(st.one_of(catalog.program(hk=b == "haiku", max_ops=2), hk_special if b == "haiku" else fx_special)),
        "d": draw(long_case(lengths=(600,), columns=(3,), scales=(1,))),
        "k": draw(st.integers(1, 599)),
        "bad": draw(st.sampled_from(["nan", "inf", "big", "7"])),
    }


@R.facet("long_future", long_future(), quick=30, thorough=1500, weight=3, secs=90)
def _(c):
    """a future that changes after hundreds of observations"""
    x = long_data(c["d"]).astype(np.float32)
    z = x.copy()
    z[c["k"] :] = BAD.get(c["bad"], 7.0)
    tree_same(head(go(c, x), c["k"]), head(go(c, z), c["k"]), f"outputs before step {c['k']}")
    return "changed"


# ---------------------------------------------------------------- every way to run over a sequence
ENTRY = {
    "haiku": ["unroll", "unroll_static", "dynamic_unroll", "static_unroll", "fori_loop", "batch", "batch_static", "frame", "array"],
    "flax": ["unroll", "unroll_static", "transform", "scan", "scan", "scan_reset"],
}


@st.composite
def entry_case(draw):
    b = draw(st.sampled_from(sorted(ENTRY)))
    x = draw(history(3, lengths=[2, 3, 6], scales=[1]))
    k = draw(st.integers(1, len(x) - 1))
    return {
        "backend": b, "entry": draw(st.sampled_from(ENTRY[b])), "fun": draw(st.sampled_from(["origin", "origin", "both", "average", "lag"])),
        "skip": draw(st.booleans()), "x": x, "k": k, "z": draw(altered(x, k)),
    }


def hk_function(kind):
    import haiku as hk
    from wax.modules import EWMA, Lag

    def fun(x):
        first = hk.get_state("first", [], init=lambda *_: x)
        hk.set_state("first", first)
        if kind == "origin":
            return first + 0 * x
        if kind == "lag":
            return Lag(1)(x)
        y = EWMA(com=2.0, adjust=False)(x)
        return y if kind == "average" else y - first

    return fun


def fx_module(kind):
    import flax.linen as nn
    from wax.flax.modules import EWMA, Lag

    class Model(nn.Module):
        @nn.compact
        def __call__(self, x):
            first = self.variable("state", "first", lambda: x).value
            if kind == "origin":
                return first + 0 * x
            if kind == "lag":
                return Lag(lag=1)(x)
            y = EWMA(com=2.0, adjust=False)(x)
            return y if kind == "average" else y - first

    return Model()


def by_entry(c):
    """The function that runs the program of the case over a table."""
    import haiku as hk
    import pandas as pd
    import wax.unroll as U
    import xarray as xr
    from wax.accessors import register_wax_accessors
    from wax.flax.core.streaming_transforms import streaming_scan
    from wax.flax.core.unroll import flax_unroll, flax_unroll_transform
    from wax.transform import transform_batch_with_state, transform_batch_with_state_static

    e, skip, rng = c["entry"], c["skip"], jax.random.PRNGKey(5)
    if c["backend"] == "flax":
        m = fx_module(c["fun"])
        if e in ("unroll", "unroll_static"):
            return flax_unroll(m, rng=rng, skip_first=skip, dynamic=e == "unroll")
        if e == "transform":
            t = flax_unroll_transform(m, skip_first=skip)
            return lambda x: t.apply(*t.init(rng, x), rng, x)[0]
        opt = {"reset_on": lambda x: jax.numpy.sum(x) > 3.0} if e == "scan_reset" else {}
        r = streaming_scan(**opt)(lambda x: fx_module(c["fun"])(x))
        return lambda x: r.scan_apply(x, rng=rng)[0]
    f = hk_function(c["fun"])
    t = hk.transform_with_state(f)
    if e in ("unroll", "unroll_static"):
        return U.unroll(f, rng=rng, skip_first=skip, dynamic=e == "unroll")
    if e in ("dynamic_unroll", "static_unroll"):
        return lambda x: getattr(U, e)(t, None, None, rng, skip, x)[0]
    if e == "fori_loop":
        return lambda x: U.dynamic_unroll_fori_loop(t, None, None, rng, skip, x)[0]
    if e in ("batch", "batch_static"):
        b = (transform_batch_with_state if e == "batch" else transform_batch_with_state_static)(t, skip_first=skip)
        return lambda x: b.apply(*b.init(rng, x), rng, x)[0]
    register_wax_accessors()

    def labelled(x):
        days = pd.date_range("2021-01-01", periods=len(x), name="t")
        v = xr.DataArray(np.asarray(x), dims=("t", "c"), coords={"t": days, "c": list("abc")})
        if e == "frame":
            v = v.to_pandas()
        return np.asarray(v.wax.stream().apply(f)[0].values)

    return labelled


@R.facet("entry_points", entry_case(), quick=90, thorough=3000, weight=3, secs=90)
def _(c):
    """every way to run a function over a sequence, with a state made from the first observation"""
    import contextlib
    import io
    import warnings

    run = by_entry(c)
    x, z = arr(c["x"]).astype(np.float32), arr(c["z"]).astype(np.float32)
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        warnings.simplefilter("ignore")
        a, b = np.asarray(run(jax.numpy.asarray(x))), np.asarray(run(jax.numpy.asarray(z)))
        skipped = c["skip"] and c["entry"] not in ("scan", "scan_reset", "frame", "array")
        assert len(a) == len(b) == len(x) - skipped, f"{len(a)} and {len(b)} outputs for {len(x)} observations"
        n = c["k"] - skipped
        same(a[:n], b[:n], f"{c['backend']} {c['entry']}: outputs before observation {c['k']}")
        if n:
            close(np.asarray(run(jax.numpy.asarray(x[: c["k"]]))), a[:n], what=f"first {c['k']} observations alone")
    return c["entry"] if n and not np.array_equal(x, z, equal_nan=True) else None
