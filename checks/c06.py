"""C06: labelled containers = raw arrays + the right labels."""
import warnings

import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np
import pandas as pd
from hypothesis import strategies as st

import catalog
from common import arr, close, history, long_case, long_data, matrix, same
from harness import Registry
from run import cached, hk_scan, to_np

warnings.simplefilter("ignore")
R = Registry(
    "C06",
    rule="two rows at least and more than one kind of container or a non-default label",
    assumptions=[
        "the time axis holds dates without time zone and is the first dimension",
        "values are compared in single precision (64-bit mode off)",
        "rows in any order for plain tables and arrays; in chronological order for stacked and multi-level tables and for outputs with more dimensions (pandas sorts these)",
        "a stacked or multi-level table is a full product of its levels; its columns may come in another order under the right labels",
    ],
)


def index(T, kind, name):
    t = {
        "daily": pd.date_range("2021-01-01", periods=T, freq="D"),
        "gaps": pd.DatetimeIndex(np.datetime64("1969-12-30T23", "ns") + np.cumsum(np.arange(T) * 7 % 5 + 1) * np.timedelta64(13, "h")),
        "ties": pd.DatetimeIndex(np.datetime64("2021-03-01", "ns") + (np.arange(T) // 2) * np.timedelta64(1, "D")),
        "sec": pd.date_range("2021-01-01", periods=T, freq="s", unit="s"),
        "down": pd.date_range("2021-01-01", periods=T, freq="D")[::-1],
        "mixed": pd.DatetimeIndex(np.datetime64("2021-03-01", "ns") + (np.arange(T) * 7 % 5 * 40 + np.arange(T)) * np.timedelta64(1, "h")),
    }[kind]
    return t.rename(name)


INDEX = st.sampled_from(["daily", "gaps", "ties", "sec", "down", "mixed"])
NAME = st.sampled_from(["time", "t", None])
COLS = st.sampled_from([["b", "a"], [10, -3], ["a", "b"], [1.5, 0.5]])


def wax():
    from wax.accessors import register_wax_accessors

    register_wax_accessors()


class Kept:
    """what a container looked like: values, types, labels and all the names"""

    def __init__(self, obj):
        self.copy = obj.copy(deep=True)
        self.names = self.names_of(obj)

    @staticmethod
    def names_of(obj):
        if hasattr(obj, "dims"):
            return [dict(obj.attrs), list(obj.coords), getattr(obj, "name", None), {d: i.name for d, i in obj.indexes.items()}]
        return [list(obj.index.names), list(obj.columns.names) if hasattr(obj, "columns") else obj.name, dict(obj.attrs)]

    def check(self, obj, what="the container passed in"):
        assert self.names_of(obj) == self.names, f"{what}: names {self.names_of(obj)} instead of {self.names}"
        if hasattr(obj, "identical"):
            assert obj.identical(self.copy), f"{what} was modified"
        elif hasattr(obj, "columns"):
            pd.testing.assert_frame_equal(obj, self.copy, check_names=False)
        else:
            pd.testing.assert_series_equal(obj, self.copy, check_names=False)


def check_frame(out, df, exp, what):
    assert isinstance(out, pd.DataFrame), f"{what}: {type(out)}"
    assert out.index.equals(df.index), f"{what}: index {out.index} instead of {df.index}"
    assert list(out.columns) == list(df.columns), f"{what}: columns {out.columns}"
    if df.index.name:
        assert out.index.name == df.index.name, f"{what}: index name {out.index.name}"
    if df.columns.name:
        assert out.columns.name == df.columns.name, f"{what}: columns name {out.columns.name}"
    close(out.values, exp, what=what, atol=1e-3)


def check_array(out, da, exp, what):
    import xarray as xr

    assert isinstance(out, xr.DataArray), f"{what}: {type(out)}"
    assert out.dims == da.dims, f"{what}: dimensions {out.dims} instead of {da.dims}"
    for d in da.dims:
        if d in da.coords:
            assert d in out.coords and out.indexes[d].equals(da.indexes[d]), f"{what}: coordinate {d}"
    close(out.values, exp, what=what, atol=1e-3)


# ------------------------------------------------------------------ values

ref = cached(lambda prog, form: hk_scan(fun_of(prog, form)), maxsize=64)


def fun_of(prog, form):
    P = catalog.hk_program(prog)

    def fun(x):
        v = jnp.reshape(x, (-1,))
        if form == "cross":
            v = v + jnp.nansum(v)
        return jnp.reshape(P(v)["last"], jnp.shape(x))

    return fun


@R.facet(
    "values",
    st.fixed_dictionaries(
        {
            "prog": catalog.program(hk=True, max_ops=2),
            "form": st.sampled_from(["plain", "cross"]),
            "x": history(2, lengths=[3, 12], scales=[1]),
            "index": INDEX,
            "cols": COLS,
            "which": st.permutations(["frame", "array", "dataset", "series"]),
        }
    ),
    quick=60,
    thorough=2500,
    weight=6,
    secs=100,
)
def _(c):
    """a random program: all containers give the values of the raw arrays"""
    import xarray as xr

    wax()
    x = arr(c["x"])
    t = index(len(x), c["index"], "time")
    exp = to_np(ref(c["prog"], c["form"])(x)[0])
    fun = fun_of(c["prog"], c["form"])
    df = pd.DataFrame(x, index=t, columns=c["cols"])
    da = xr.DataArray(x, dims=("time", "c"), coords={"time": t, "c": c["cols"]})
    for kind in c["which"][:2]:
        if kind == "frame":
            keep = Kept(df)
            out, _ = df.wax.stream().apply(fun)
            check_frame(out, df, exp, "data frame")
            keep.check(df)
        elif kind == "array":
            keep = Kept(da)
            out, _ = da.wax.stream().apply(fun)
            check_array(out, da, exp, "data array")
            keep.check(da)
        elif kind == "dataset":
            ds = da.to_dataset(name="v").assign(w=(("time",), np.ones(len(x))))
            keep = Kept(ds)
            out, _ = ds.wax.stream().apply(lambda d: fun(d["v"]) * d["w"], format_dims=("time", "c"))
            check_array(out, da, exp, "dataset")
            keep.check(ds)
        else:
            s = df.iloc[:, 1]
            keep = Kept(s)
            e1 = to_np(ref(c["prog"], c["form"])(x[:, 1])[0])
            out, _ = s.wax.stream().apply(fun)
            assert isinstance(out, pd.Series) and out.index.equals(s.index), "series index"
            close(out.values, e1, what="series", atol=1e-3)
            keep.check(s)
    return "containers"


@R.facet(
    "long_tables",
    st.fixed_dictionaries(
        {
            "kind": st.sampled_from(["frame", "array", "dataset", "multi"]),
            "index": INDEX,
            "d": long_case(lengths=(300, 1000), columns=(1, 4, 60), scales=(1,)),
        }
    ),
    quick=16,
    thorough=600,
    weight=2,
    secs=60,
)
def _(c):
    """hundreds of rows, tens of columns: every value under its own labels"""
    import xarray as xr

    wax()
    if c["kind"] == "multi" and c["index"] in ("ties", "down", "mixed"):
        c = dict(c, index="gaps")
    x = np.nan_to_num(long_data(c["d"])).astype(np.float32)
    x[:, 0] += np.arange(len(x)) % 7
    t = index(len(x), c["index"], "time")
    cols = [f"k{(37 * j) % 61:02d}" for j in range(x.shape[1])]
    exp = np.cumsum(x.astype(np.float64), axis=0)
    if c["kind"] in ("frame", "multi"):
        df = pd.DataFrame(x, index=t, columns=cols)
        if c["kind"] == "multi" and len(cols) == 60:
            df.columns = pd.MultiIndex.from_product([[f"p{j:02d}" for j in range(20)], ["u", "v", "w"]], names=["p", "q"])
        out, _ = df.wax.stream().apply(_cum)
        if c["kind"] == "multi":
            assert out.index.equals(df.index) and sorted(out.columns) == sorted(df.columns), "labels"
            close(out[df.columns].values, exp, what="values", atol=0.2)
        else:
            check_frame_within(out, df, exp)
    else:
        da = xr.DataArray(x, dims=("time", "c"), coords={"time": t, "c": cols})
        if c["kind"] == "dataset":
            out, _ = da.to_dataset(name="v").wax.stream().apply(lambda d: _cum(d["v"]), format_dims=("time", "c"))
        else:
            out, _ = da.wax.stream().apply(_cum)
        assert out.dims == da.dims and out.indexes["time"].equals(da.indexes["time"]) and list(out["c"].values) == cols, "labels"
        close(out.values, exp, what="values", atol=0.2)
    return "many rows"


def check_frame_within(out, df, exp):
    assert isinstance(out, pd.DataFrame) and out.index.equals(df.index) and list(out.columns) == list(df.columns), "labels"
    close(out.values, exp, what="values", atol=0.2)


# ------------------------------------------------------------------ labels

MODULES = {
    "double": (lambda x: x * 2, lambda v: v * 2, "same"),
    "cum": (lambda x: _cum(x), lambda v: np.cumsum(v, axis=0), "same"),
    "flip": (lambda x: x[::-1], lambda v: v[:, ::-1], "same"),
    "sum": (lambda x: x.sum(), lambda v: v.reshape(len(v), -1).sum(axis=1), "row"),
    "dict": (lambda x: {"p": x + 1, "q": (x * 3,)}, lambda v: {"p": v + 1, "q": (v * 3,)}, "same"),
    "rows": (lambda x: [x.sum(), x.max()], lambda v: [v.reshape(len(v), -1).sum(1), v.reshape(len(v), -1).max(1)], "row"),
    "mixed": (lambda x: {"a": x.sum(), "b": x}, lambda v: {"a": v.reshape(len(v), -1).sum(1), "b": v}, "mixed"),
    "first": (lambda x: jnp.stack([x, -x, x * 0]), lambda v: np.stack([v, -v, v * 0], axis=1), "stack"),
}


def _cum(x):
    s = hk.get_state("s", jnp.shape(x), init=lambda *_: jnp.zeros(jnp.shape(x), x.dtype)) + x
    hk.set_state("s", s)
    return s


@st.composite
def label_case(draw):
    T = draw(st.sampled_from([2, 3, 5]))
    return {
        "x": draw(matrix(T, 4, nan=False)),
        "kind": draw(st.sampled_from(["frame", "frame", "array", "array3", "multi", "stacked", "dataset"])),
        "index": draw(INDEX),
        "tname": draw(NAME),
        "cols": draw(COLS),
        "cname": draw(st.sampled_from([None, "col"])),
        "mod": draw(st.sampled_from(sorted(MODULES))),
        "skip": draw(st.booleans()),
        "int": draw(st.booleans()),
        "swap": draw(st.booleans()),
        "raw": draw(st.sampled_from([False, False, False, True])),
        "coords": draw(st.booleans()),
    }


def leaves(tree):
    return jax.tree_util.tree_leaves(tree, is_leaf=lambda v: hasattr(v, "index") and hasattr(v, "values") or hasattr(v, "dims"))


def is_label(v):
    return isinstance(v, pd.Series | pd.DataFrame) or hasattr(v, "dims")


@R.facet("labels", label_case(), quick=300, thorough=5000, weight=6, secs=100)
def _(c):
    """simple functions: the labels of every output, for all kinds of containers, names, index types and output forms"""
    import xarray as xr

    wax()
    kind = c["kind"]
    x = arr(c["x"])
    if c["int"]:
        x = np.round(x).astype(np.int64)
    T = len(x)
    fun, ref_fun, form = MODULES[c["mod"]]
    if kind == "frame" and form == "stack" and c["index"] == "ties" and not c["raw"]:
        return None  # recorded finding, see the probe
    if c["index"] in ("down", "mixed") and (kind in ("multi", "stacked") or form == "stack"):
        c = dict(c, index="gaps")
    tname = c["tname"] or "time"
    t = index(T, c["index"] if kind != "stacked" or c["index"] != "ties" else "gaps", tname)
    kw = {"skip_first": c["skip"]}
    skip = (lambda v: v[1:]) if c["skip"] else (lambda v: v)
    how = {"format_outputs": False} if c["raw"] else {}
    if kind == "frame":
        df = pd.DataFrame(x[:, :2], index=t if c["tname"] else t.rename(None), columns=pd.Index(c["cols"], name=c["cname"]))
        obj, v = df, x[:, :2]
        dims = (c["tname"] or "dim_0", c["cname"] or "dim_1")
    elif kind == "multi":
        cols = [("v", c["cols"][0]), ("v", c["cols"][1]), ("u", c["cols"][0]), ("u", c["cols"][1])]
        df = pd.DataFrame(x, index=t if c["index"] != "ties" else index(T, "gaps", tname), columns=pd.MultiIndex.from_tuples(cols, names=["k", "l"]))
        # rows of observations are (k, l) tables with sorted k
        lv = [sorted(set(a for a, _ in cols)), c["cols"]]
        obj = df
        v = None
        dims = (tname, "k", "l")
    elif kind == "stacked":
        df = pd.DataFrame(x[:, :2], index=t, columns=pd.Index(["p", "q"], name="l")).stack().rename("n")
        obj, v = df, x[:, :2]
        dims = (tname, "l")
    else:
        sh = x[:, :2] if kind in ("array", "dataset") else x.reshape(T, 2, 2)
        dims = (tname, "kb", "ka")[: sh.ndim] if c["swap"] else (tname, "ka", "kb")[: sh.ndim]
        coords = {tname: t}
        if c["coords"]:
            coords[dims[1]] = c["cols"]
        obj = xr.DataArray(sh, dims=dims, coords=coords, name="vals")
        v = sh
    if kind == "multi":
        # the values are read back by label
        da = obj.stack([0, 1]).to_xarray()
        v = da.values
        dims = da.dims
    exp = ref_fun(v[1:]) if c["skip"] and c["mod"] != "cum" else ref_fun(skip(v))
    if form == "stack":
        kw["format_dims"] = (dims[0], "new") + tuple(dims[1:])
    elif form == "mixed":
        kw["format_dims"] = {"a": np.array(dims[:1]), "b": np.array(dims)}
    module = fun
    if kind == "dataset":
        obj = xr.Dataset({"v": obj, "w": ((tname,), np.arange(T)), "k": ((), 7)})
        module = lambda d: fun(d["v"])
        if form == "same":
            kw["format_dims"] = dims
        elif form == "row":
            kw["format_dims"] = dims[:1] if c["swap"] else dims
    keep = Kept(obj)
    out, state = obj.wax.stream(**how).apply(module, **kw)
    keep.check(obj)
    dt = obj.indexes[tname] if hasattr(obj, "indexes") else (obj.index if obj.index.nlevels == 1 else t)
    dt = skip(dt)
    got, want = jax.tree_util.tree_leaves(out, is_leaf=is_label), jax.tree_util.tree_leaves(exp)
    if hasattr(out, "data_vars"):
        names = sorted(out.data_vars)
        got = [out[n] for n in names]
        assert names == sorted(exp), f"variables {names}"
    elif isinstance(exp, dict | list | tuple):
        assert type(out) is type(exp), f"{type(out)} instead of {type(exp)}"
    assert len(got) == len(want), f"{len(got)} outputs instead of {len(want)}"
    for g, w in zip(got, want):
        w = np.asarray(w, dtype=np.int32 if c["int"] else np.float32)
        if c["raw"]:
            same(np.asarray(g), w, "raw output")
            continue
        odims = dims[:1] if w.ndim == 1 else (kw["format_dims"] if form == "stack" else dims)
        if isinstance(g, pd.Series) and g.index.nlevels == 1:
            assert w.ndim == 1, f"a series for an output of shape {w.shape}"
            assert g.index.equals(pd.Index(dt)), f"index {g.index} instead of {dt}"
            same(g.values, w, "values")
        elif isinstance(g, pd.Series):
            full = pd.MultiIndex.from_product([dt] + [range(3) if d == "new" else ["p", "q"] for d in odims[1:]])
            assert len(g) == w.size and g.index.equals(full.set_names(g.index.names)), f"index {g.index}"
            same(g.values, w.ravel(), "values")
        elif isinstance(g, pd.DataFrame):
            assert g.index.equals(dt), f"index {g.index} instead of {dt}"
            if kind == "frame":
                if w.ndim == 2:
                    assert list(g.columns) == list(obj.columns), f"columns {g.columns}"
                    same(g.values, w, "values")
                else:
                    for i in range(w.shape[1]):
                        for j, n in enumerate(obj.columns):
                            same(g[(i, n)].values, w[:, i, j], f"values of {i}, {n}")
            elif kind == "multi":
                k0, k1 = [da.indexes[d] for d in dims[1:]]
                for i, a in enumerate(k0):
                    for j, b in enumerate(k1):
                        if w.ndim == 3:
                            same(g[(a, b)].values, w[:, i, j], f"values of {a}, {b}")
                            if c["mod"] == "double":
                                same(g[(a, b)].values, skip(obj[(a, b)].values).astype(w.dtype) * 2, f"twice {a}, {b}")
                        else:
                            for k in range(3):
                                same(g[(k, a, b)].values, w[:, k, i, j], f"values of {k}, {a}, {b}")
            else:
                raise AssertionError(f"unexpected frame for {kind}")
        else:
            src = obj["v"] if kind == "dataset" else obj
            assert g.dims == tuple(odims), f"dimensions {g.dims} instead of {odims}"
            assert g.indexes[tname].equals(dt), f"time {g.indexes[tname]}"
            for d in odims[1:]:
                if d in src.coords:
                    assert g.indexes[d].equals(src.indexes[d]), f"coordinate {d}"
                else:
                    assert d not in g.coords, f"coordinate {d} made up"
            same(g.values, w, "values")
    return f"{kind} {c['mod']}"


# ------------------------------------------------------------------ parameters and keys


@R.facet("params", st.fixed_dictionaries({"x": matrix(3, 2, nan=False), "seed": st.integers(0, 30), "kind": st.sampled_from(["frame", "array", "dataset", "series"]), "given": st.booleans()}), quick=24, thorough=500, weight=3, secs=60)
def _(c):
    """random parameters are drawn with the given key, or used as given"""
    import xarray as xr

    wax()
    x = arr(c["x"])
    t = index(3, "daily", "time")
    fun = lambda v: hk.Linear(2, name="l")(jnp.reshape(v, (-1,)))[: max(jnp.size(v), 1)].reshape(jnp.shape(v))
    if c["kind"] == "series":
        x = x[:, 0]
        obj = pd.Series(x, index=t)
    elif c["kind"] == "frame":
        obj = pd.DataFrame(x, index=t)
    else:
        obj = xr.DataArray(x, dims=("time", "c"), coords={"time": t})
    kw, f = {}, fun
    if c["kind"] == "dataset":
        obj = obj.to_dataset(name="v")
        kw, f = {"format_dims": ("time", "c")}, lambda d: fun(d["v"])
    key = jax.random.PRNGKey(c["seed"])
    p, _ = hk.transform_with_state(fun).init(key, x[0])
    if c["given"]:
        p = {"l": {"w": p["l"]["w"] + 1, "b": p["l"]["b"] - 2}}
        out, _ = obj.wax.stream().apply(f, params=p, rng=key, **kw)
    else:
        out, _ = obj.wax.stream().apply(f, rng=key, **kw)
    w, b = np.asarray(p["l"]["w"]), np.asarray(p["l"]["b"])
    exp = x.reshape(3, -1) @ w + b
    close(np.asarray(out.values).reshape(3, -1), exp[:, : x.reshape(3, -1).shape[1]] if x.ndim == 1 else exp, what="outputs at the parameters", atol=1e-3)
    return "given" if c["given"] else "drawn"


# ------------------------------------------------------------------ formatting


@st.composite
def format_case(draw):
    shape = draw(st.sampled_from([(2,), (3, 2), (3, 4), (2, 3, 4), (3, 3)]))
    return {
        "shape": list(shape),
        "what": draw(st.sampled_from(["array", "frame", "series", "dataset", "auto"])),
        "coords": draw(st.lists(st.booleans(), min_size=3, max_size=3)),
        "perm": draw(st.permutations([0, 1, 2])),
        "form": draw(st.sampled_from(["leaf", "dict", "nested"])),
        "none": draw(st.booleans()),
        "prefix": draw(st.integers(0, 3)),
        "out": draw(st.sampled_from(["dataarray", "dataframe"])),
    }


@R.facet("format", format_case(), quick=1500, thorough=15000, weight=3, secs=50)
def _(c):
    """the formatting functions on their own"""
    import xarray as xr
    from wax import format as F

    shape = tuple(c["shape"])
    names = [["time", "x", "y"][i] for i in c["perm"]][: len(shape)]
    size = dict(zip(names, shape))
    labels = {n: [f"{n}{i}" for i in range(s)][::-1] for n, s in size.items()}
    coords = {n: labels[n] for k, n in enumerate(sorted(names)) if c["coords"][k]}
    ref_ds = xr.Dataset({"v": (tuple(names), np.zeros(shape))}, coords=coords)
    x = np.arange(np.prod(shape), dtype=np.float32).reshape(shape)
    data = {"leaf": x, "dict": {"a": x, "b": -x}, "nested": [x, {"z": (x + 1,)}]}[c["form"]]

    def check(g, v, dims):
        if isinstance(g, xr.DataArray):
            assert g.dims == tuple(dims), f"dimensions {g.dims}"
            assert set(g.coords) == {d for d in dims if d in coords}, f"coordinates {set(g.coords)}"
            for d in g.coords:
                assert list(g[d].values) == labels[d], f"coordinate {d}"
            same(g.values, v, "values")
        elif isinstance(g, pd.Series):
            ls = [labels[d] if d in coords else range(size[d]) for d in dims]
            full = pd.MultiIndex.from_product(ls) if len(dims) > 1 else pd.Index(ls[0])
            assert list(g.index) == list(full), f"index {g.index}"
            same(g.values, v.ravel(), "values")
        else:
            assert list(g.index) == list(labels[dims[0]] if dims[0] in coords else range(size[dims[0]])), "index"
            ls = [labels[d] if d in coords else range(size[d]) for d in dims[1:]]
            if len(dims) == 2:
                assert list(g.columns) == list(ls[0]), "columns"
                same(g.values, v, "values")
            else:
                for i, a in enumerate(ls[0]):
                    for j, b in enumerate(ls[1]):
                        same(g[(a, b)].values, v[:, i, j], f"values of {a}, {b}")

    dims = tuple(names)
    if c["what"] == "auto":
        k = c["prefix"] % (len(shape)) + 1
        y = x[(slice(None),) * k + (0,) * (len(shape) - k)]
        if shape == (3, 3) and k == 1:
            pass
        out = F.tree_auto_format_with_shape(ref_ds, {"a": jnp.asarray(y), "b": (jnp.asarray(-y),)}, c["out"])
        check(out["a"], y, dims[:k])
        check(out["b"][0], -y, dims[:k])
        assert isinstance(out["a"], xr.DataArray if c["out"] == "dataarray" else pd.Series | pd.DataFrame), f"{type(out['a'])}"
        odd = np.zeros((7, 5, 6, 2), np.float32)
        assert F.auto_format_with_shape(ref_ds, odd) is odd, "data of no known shape is returned as it is"
        return "by shape"
    fun = {"array": F.format_dataarray, "frame": F.format_dataframe, "series": F.format_series, "dataset": F.format_dataset}[c["what"]]
    tree = jax.tree_util.tree_map(lambda _: np.array(dims), data) if c["none"] else dims
    out = fun(ref_ds.coords, data, tree)
    if c["what"] == "dataset" and c["form"] == "dict":
        assert isinstance(out, xr.Dataset) and set(out.data_vars) == {"a", "b"}, "dataset"
        out = {"a": out["a"], "b": out["b"]}
    got = jax.tree_util.tree_leaves(out, is_leaf=is_label)
    want = jax.tree_util.tree_leaves(data)
    assert len(got) == len(want), "structure"
    for g, v in zip(got, want):
        kind = {"array": xr.DataArray, "dataset": xr.DataArray, "series": pd.Series, "frame": pd.Series if len(dims) == 1 else pd.DataFrame}[c["what"]]
        assert isinstance(g, kind), f"{type(g)} from {fun.__name__}"
        check(g, v, dims)
    if c["what"] == "frame":
        g = F.format_dataframe(None, x)
        assert g.shape == (shape[0], int(np.prod(shape[1:]))) or len(shape) == 1, "default format"
    return c["what"] if coords else None


@R.probe("frame-ties-three-dimensions")
def _():
    """repeated timestamps and outputs with one more dimension"""
    wax()
    df = pd.DataFrame(np.arange(4.0).reshape(2, 2), index=pd.DatetimeIndex(["2020-01-01"] * 2, name="t"), columns=pd.Index(["p", "q"], name="c"))
    out, _ = df.wax.stream().apply(lambda x: jnp.stack([x, -x]), format_dims=("t", "new", "c"))
    same(out.values.reshape(2, 2, 2), np.stack([df.values, -df.values], axis=1).astype(np.float32), "values")
