"""C10: exponential-window accessors (jax on pandas/xarray, numba on pandas)."""
import math

import numpy as np
import pandas as pd
import xarray as xr
from hypothesis import strategies as st

from common import arr, close, history, long_case, long_data, matrix, mixed_gap, scale_of
from harness import Registry
from oracles import com_of, ewma

R = Registry(
    "C10",
    rule="a gap between two observations, a non-default option, a split with carried state, "
    "or reordered columns",
    assumptions=[
        "time index of datetime type (the accessors require one); index/column names are compared "
        "when the input has them",
        "jax accessor in 32 bit mode, tolerance 1e-4 of the data scale",
    ],
)

DECAYS = [["alpha", 0.5], ["com", 2.0], ["alpha", 0.1], ["com", 5.0], ["com", 0.3]]
opts = st.fixed_dictionaries(
    {
        "decay": st.sampled_from(DECAYS),
        "adjust": st.sampled_from([True, False, "linear"]),
        "ignore_na": st.booleans(),
        "min_periods": st.sampled_from([0, 1, 3]),
        "initial_value": st.sampled_from([None, None, 0.5]),
    }
)


def kw(o):
    d = {k: o[k] for k in ("adjust", "ignore_na", "min_periods")}
    if o["initial_value"] is not None:
        d["initial_value"] = o["initial_value"]
    return d


def reference(x, o):
    return ewma(x, com_of(o["decay"]), **kw(o))


def times(T, freq, start):
    return pd.date_range(start, periods=T, freq=freq, name="t")


index = st.fixed_dictionaries(
    {
        "freq": st.sampled_from(["D", "h", "7D", "15min"]),
        "start": st.sampled_from(["2020-01-30", "1969-12-28", "2000-02-28"]),
        "named": st.booleans(),
        "cols": st.permutations(["b", "a", "c"]),
    }
)


def frame(x, ix, n=3):
    t = times(len(x), ix["freq"], ix["start"])
    cols = pd.Index(ix["cols"][:n], name="col")
    if not ix["named"]:
        t = t.rename(None)
        cols = cols.rename(None)
    return pd.DataFrame(np.array(x, dtype=np.float64)[:, :n], index=t, columns=cols)


def labels(out, ref, named):
    assert list(out.index) == list(ref.index), f"index {out.index} != {ref.index}"
    if isinstance(ref, pd.DataFrame):
        assert list(out.columns) == list(ref.columns), f"columns {out.columns} != {ref.columns}"
    if named:
        assert list(out.index.names) == list(ref.index.names), "index name"
        if isinstance(ref, pd.DataFrame):
            assert list(out.columns.names) == list(ref.columns.names), "column name"


def why(c):
    o = c["o"]
    if mixed_gap(c["x"]):
        return "gap between observations"
    if o["initial_value"] is not None or o["adjust"] is not True or o["min_periods"] > 1:
        return "non-default options"


@R.facet(
    "jax_accessor",
    st.fixed_dictionaries(
        {
            "x": history(lengths=(2, 7, 25), scales=(1, 1, 100)),
            "ix": index,
            "o": opts,
            "kind": st.sampled_from(["frame", "series", "dataarray", "multi"]),
        }
    ),
    quick=80,
    thorough=1500,
    weight=3,
    secs=55,
)
def _(c):
    from wax.accessors import register_wax_accessors

    register_wax_accessors()
    df = frame(c["x"], c["ix"])
    o = c["o"]
    dec = {o["decay"][0]: o["decay"][1]}
    e = reference(c["x"], o)["mean"]
    tol = 1e-4 * scale_of(c["x"])
    kind = c["kind"]
    data = {
        "frame": df,
        "series": df.iloc[:, 0],
        "dataarray": xr.DataArray(df.values, dims=("t", "col"), coords={"t": df.index.values, "col": list(df.columns)}),
        "multi": xr.DataArray(
            df.values[:, :, None] * np.array([1.0, 2.0]),
            dims=("t", "col", "z"),
            coords={"t": df.index.values, "col": list(df.columns)},
        ),
    }[kind]
    before = data.copy(deep=True)
    out = data.wax.ewm(**dec, **kw(o)).mean()
    if kind == "frame":
        labels(out, df, c["ix"]["named"])
        close(out.values, e, atol=tol, what="frame")
        pd.testing.assert_frame_equal(data, before)
    elif kind == "series":
        labels(out, data, c["ix"]["named"])
        close(out.values, e[:, 0], atol=tol, what="series")
        pd.testing.assert_series_equal(data, before)
    else:
        assert out.dims == data.dims
        for k in data.coords:
            assert (out.coords[k].values == data.coords[k].values).all(), f"coordinate {k}"
        if kind == "multi" :
            e2 = ewma(data.values, com_of(o["decay"]), **kw(o))["mean"]
            close(out.values, e2, atol=2 * tol, what="3d dataarray")
        else:
            close(out.values, e, atol=tol, what="dataarray")
        xr.testing.assert_identical(data, before)
    return why(c)


@R.facet(
    "jax_vs_pandas",
    st.fixed_dictionaries(
        {
            "x": history(lengths=(2, 7, 25), scales=(1,)),
            "ix": index,
            "decay": st.sampled_from(DECAYS),
            "adjust": st.booleans(),
            "ignore_na": st.booleans(),
            "min_periods": st.integers(0, 4),
            "series": st.booleans(),
        }
    ),
    quick=60,
    thorough=1500,
    weight=3,
    secs=45,
)
def _(c):
    from wax.accessors import register_wax_accessors

    register_wax_accessors()
    df = frame(c["x"], c["ix"])
    if c["series"]:
        df = df.iloc[:, 1]
    k = {"adjust": c["adjust"], "ignore_na": c["ignore_na"], "min_periods": c["min_periods"]}
    k[c["decay"][0]] = c["decay"][1]
    ref = df.ewm(**k).mean()
    out = df.wax.ewm(**k).mean()
    labels(out, ref, c["ix"]["named"])
    close(out.values, ref.values, atol=1e-4 * scale_of(c["x"]), what="pandas")
    raw, state = df.wax.ewm(**k, format_outputs=False, return_state=True).mean()
    close(np.asarray(raw), ref.values, atol=1e-4 * scale_of(c["x"]), what="raw output")
    return "gap between observations" if mixed_gap(c["x"]) else None


# --------------------------------------------------------------- numba

numba_opts = st.tuples(
    st.sampled_from([["alpha", 0.5], ["com", 5.0]]),
    st.sampled_from([True, False, "linear"]),
    st.booleans(),
    st.sampled_from([[0, None], [2, None], [0, 0.5]]),
).map(
    lambda t: {
        "decay": t[0],
        "adjust": t[1],
        "ignore_na": t[2],
        "min_periods": t[3][0],
        "initial_value": t[3][1],
    }
)


def nreg():
    from wax.numba.ewma_numba import register_wax_numba

    if not hasattr(pd.DataFrame, "wax_numba"):
        register_wax_numba()


@R.facet(
    "numba_accessor",
    st.fixed_dictionaries(
        {
            "x": history(lengths=(1, 2, 7, 25), scales=(1, 1, 100)),
            "ix": index,
            "o": numba_opts,
            "series": st.booleans(),
        }
    ),
    quick=26,
    thorough=500,
    weight=5,
    secs=60,
)
def _(c):
    nreg()
    df = frame(c["x"], c["ix"])
    e = reference(c["x"], c["o"])["mean"]
    if c["series"]:
        df, e = df.iloc[:, 2], e[:, 2]
    before = df.copy(deep=True)
    o = c["o"]
    out = df.wax_numba.ewm(**{o["decay"][0]: o["decay"][1]}, **kw(o)).mean()
    labels(out, df, True)
    if c["series"]:
        assert out.name == df.name
    close(out.values, e, rtol=1e-7, atol=1e-7 * scale_of(c["x"]), what="numba accessor")
    assert df.equals(before), "input modified"
    return why(c)


@R.facet(
    "numba_split_accessor",
    st.fixed_dictionaries(
        {
            "x": history(lengths=(2, 7, 7, 25), scales=(1,)),
            "ix": index,
            "o": numba_opts,
            "cut": st.integers(1, 24),
            "perm": st.permutations([0, 1, 2]),
            "first": st.sampled_from([[0, 1, 2], [0, 1, 2], [2, 0], [1], [1, 2]]),
            "series": st.sampled_from([False, False, True]),
        }
    ),
    quick=18,
    thorough=300,
    weight=7,
    secs=70,
)
def _(c):
    nreg()
    df = frame(c["x"], c["ix"])
    o = c["o"]
    k = dict(kw(o), **{o["decay"][0]: o["decay"][1]})
    cut = 1 + c["cut"] % (len(df) - 1) if len(df) > 2 else 1
    if c["series"]:
        a, b = df.iloc[:cut, 0], df.iloc[cut:, 0]
        e = reference(c["x"], o)["mean"][:, 0]
    else:
        # columns that appear in the second part only start there
        a, b = df.iloc[:cut, c["first"]], df.iloc[cut:, c["perm"]]
        e = reference(c["x"], o)["mean"]
        late = [j for j in range(3) if j not in c["first"]]
        if late:
            e[cut:, late] = reference(c["x"][cut:], o)["mean"][:, late]
    r1, s = a.wax_numba.ewm(**k, return_state=True).mean()
    s0 = s.copy(deep=True)
    r2, s2 = b.wax_numba.ewm(**k, return_state=True).mean(state=s)
    pd.testing.assert_frame_equal(s, s0)
    labels(r1, a, True)
    labels(r2, b, True)
    e1 = e[:cut] if c["series"] else e[:cut][:, c["first"]]
    close(r1.values, e1, rtol=1e-7, atol=1e-6, what="first part")
    e2 = e[cut:] if c["series"] else e[cut:][:, c["perm"]]
    close(r2.values, e2, rtol=1e-7, atol=1e-6, what="second part")
    seen = ~np.isnan(np.array(c["x"], dtype=float))
    if not c["series"]:
        seen[:cut, late] = False
        n = np.sum(seen, axis=0)
        assert list(s2["nobs"]) == list(n[list(c["perm"])]), "observation counts"
    return "carried state" + (", reordered columns" if list(c["perm"]) != [0, 1, 2] else "") + (
        ", new columns" if len(c["first"]) < 3 else ""
    )


def _fun(o):
    from wax.numba.ewma_numba import ewma as newma

    k = dict(kw(o), **{o["decay"][0]: o["decay"][1]})
    return newma(**k)


from run import cached  # noqa: E402

_cached_fun = cached(_fun, 400)


@R.facet(
    "numba_split_function",
    st.fixed_dictionaries(
        {
            "o": numba_opts,
            "cases": st.lists(
                st.fixed_dictionaries(
                    {"x": history(lengths=(3, 7, 25), scales=(1,)), "cuts": st.lists(st.integers(1, 24), min_size=1, max_size=3)}
                ),
                min_size=3,
                max_size=8,
            ),
        }
    ),
    quick=40,
    thorough=1000,
    weight=5,
    secs=60,
)
def _(c):
    """Same through the array function: any number of parts; states are reusable."""
    f = _cached_fun(c["o"])
    for k in c["cases"]:
        x = np.array(k["x"], dtype=np.float64)
        e = reference(x, c["o"])["mean"]
        cuts = sorted({t for t in k["cuts"] if t < len(x)})
        pts = [0] + cuts + [len(x)]
        state = None
        for a, b in zip(pts[:-1], pts[1:]):
            kept = None if state is None else [np.array(v) for v in state]
            part = x[a:b].copy()
            res, new = f(part, state)
            close(res, e[a:b], rtol=1e-7, atol=1e-6, what=f"rows {a}:{b}")
            if state is not None:
                for v, w in zip(state, kept):
                    assert np.array_equal(v, w, equal_nan=True), "the state handed in was modified"
                again, _ = f(part, state)
                assert np.array_equal(res, again, equal_nan=True), "state not reusable"
            state = new
    return "split with carried state" if any(t < len(k["x"]) for k in c["cases"] for t in k["cuts"]) else None


# --------------------------------------------------------------- long and wide tables


@R.facet(
    "long_tables",
    st.fixed_dictionaries(
        {
            "route": st.sampled_from(["numba", "frame", "frame", "dataarray"]),
            "o": numba_opts,
            "d": long_case(lengths=(300, 700), columns=(1, 3, 30), scales=(1,)),
            "cut": st.sampled_from([1, 257, 299]),
        }
    ),
    quick=14,
    thorough=500,
    weight=3,
    secs=70,
)
def _(c):
    """hundreds of rows, tens of columns"""
    x, o = long_data(c["d"]), c["o"]
    e = reference(x, o)["mean"]
    if c["route"] == "numba":
        f = _cached_fun(o)
        a, s = f(x[: c["cut"]].copy(), None)
        b, _ = f(x[c["cut"] :].copy(), s)
        close(np.concatenate([a, b]), e, rtol=1e-7, atol=1e-6, what="rows")
        return "carried state"
    from wax.accessors import register_wax_accessors

    register_wax_accessors()
    cols = [f"c{(7 * j) % 31:02d}" for j in range(x.shape[1])]
    df = pd.DataFrame(x, index=times(len(x), "h", "1969-12-28"), columns=cols)
    k = dict(kw(o), **{o["decay"][0]: o["decay"][1]})
    if c["route"] == "frame":
        out = df.wax.ewm(**k).mean()
        labels(out, df, False)
    else:
        da = xr.DataArray(x, dims=("t", "col"), coords={"t": df.index.values, "col": cols})
        out = da.wax.ewm(**k).mean()
        assert out.dims == da.dims and list(out["col"].values) == cols
    close(out.values, e, rtol=1e-3, atol=1e-3, what="rows")
    return why({"x": x, "o": o})


# --------------------------------------------------------------- tables of integers


@R.facet(
    "whole_tables",
    st.fixed_dictionaries(
        {
            "x": st.sampled_from([2, 7, 25]).flatmap(lambda n: matrix(n, 3, nan=False)),
            "ix": index,
            "dtype": st.sampled_from(["int64", "int64", "int32", "bool", "uint32"]),
            "decay": st.sampled_from(DECAYS),
            "adjust": st.booleans(),
            "min_periods": st.integers(0, 4),
            "series": st.booleans(),
            "which": st.sampled_from(["wax", "wax", "numba", "both columns"]),
        }
    ),
    quick=20,
    thorough=400,
    weight=5,
    secs=60,
)
def _(c):
    from wax.accessors import register_wax_accessors

    register_wax_accessors()
    nreg()
    x = np.round(np.asarray(c["x"], float))
    x = x > 0 if c["dtype"] == "bool" else np.abs(x) if c["dtype"] == "uint32" else x
    df = frame(c["x"], c["ix"])
    df = pd.DataFrame(x.astype(c["dtype"]), index=df.index, columns=df.columns)
    if c["which"] == "both columns" and c["dtype"] != "bool":
        # a table of integer and of floating point columns
        df = df.astype({df.columns[0]: "float64"})
    if c["series"]:
        df = df.iloc[:, 1]
    k = {"adjust": c["adjust"], "min_periods": c["min_periods"], c["decay"][0]: c["decay"][1]}
    e = df.astype("float64").ewm(**k).mean()
    before = df.copy(deep=True)
    out = (df.wax_numba if c["which"] == "numba" else df.wax).ewm(**k).mean()
    labels(out, df, c["ix"]["named"] or c["which"] == "numba")
    close(out.values, e.values, atol=1e-4 * scale_of(x), what=f"{c['which']} on {c['dtype']}")
    assert df.equals(before), "input modified"
    return "several values" if len(np.unique(x)) > 1 else None



# --------------------------------------------------------------- other units


@R.facet(
    "scaled_tables",
    st.fixed_dictionaries(
        {
            "x": history(lengths=(2, 7, 25), scales=(1,)),
            "ix": index,
            "decay": st.sampled_from(DECAYS),
            "adjust": st.sampled_from([True, False, "linear"]),
            "ignore_na": st.booleans(),
            "power": st.sampled_from([-30, -20, -10, 10, 20, 30]),
            "which": st.sampled_from(["wax", "wax_numba"]),
        }
    ),
    quick=20,
    thorough=400,
    weight=5,
    secs=60,
)
def _(c):
    """a table in other units gives the same averages in these units (and those of pandas)"""
    from wax.accessors import register_wax_accessors

    register_wax_accessors()
    nreg()
    s = 2.0 ** c["power"]
    df = frame(c["x"], c["ix"])
    k = {"adjust": c["adjust"], "ignore_na": c["ignore_na"], c["decay"][0]: c["decay"][1]}
    want = getattr(df, c["which"]).ewm(**k).mean()
    got = getattr(df * s, c["which"]).ewm(**k).mean()
    a = np.abs(df.values[np.isfinite(df.values)])
    scale = max(float(a.max()), 2.0**-6) if a.size else 1.0
    eps = 1e-6 if c["which"] == "wax" else 1e-12
    close(np.asarray(got, np.float64) / s, np.asarray(want, np.float64), eps, eps * scale, f"{c['which']}: data scaled by {s}")
    if c["adjust"] != "linear":
        e = (df * s).ewm(**k).mean()
        close(np.asarray(got, np.float64) / s, e.values / s, 0.0, (1e-4 if c["which"] == "wax" else 1e-9) * scale, "pandas")
    return "scaled by 1e3 or more" if a.size and a.max() > 0 else None
