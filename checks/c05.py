"""C05: stream synchronisation delivers exactly the past of each secondary stream."""
import numpy as np
from hypothesis import strategies as st

from common import same
from harness import Registry

R = Registry(
    "C05",
    rule="two time axes at least, some secondary row visible at some step and some not (or a static variable seen at 3 steps)",
    assumptions=[
        "timestamps of every axis are in non-decreasing order",
        "the time axis is the first dimension of a variable, the data types are those with a missing marker (floats, 32/64-bit integers, booleans, strings, dates)",
        "the period is a day (the one supported)",
    ],
)
MARK = -99999
HOUR = 3600
T0 = 18_000 * 24 * HOUR


@st.composite
def times(draw, max_len=8, step=3, dup=True):
    n = draw(st.integers(1, max_len))
    unit = draw(st.sampled_from([6, 6, 24, 1]))
    start = draw(st.integers(-4, 8))
    gaps = draw(st.lists(st.integers(0 if dup else 1, step), min_size=n - 1, max_size=n - 1))
    out = [start]
    for g in gaps:
        out.append(out[-1] + g)
    return [int(v * unit) for v in out]


@st.composite
def layout(draw, max_axes=3, max_local=8, max_sec=8, static=True):
    axes = ["t_loc"] + ["t_b", "a_t"][: draw(st.integers(1, max_axes - 1))]
    c = {
        "times": {a: draw(times(max_local if a == "t_loc" else max_sec)) for a in axes},
        "ffill": {a: draw(st.sampled_from([True, True, False, None])) for a in axes[1:]},
        "freq": {a: draw(st.booleans()) for a in axes[1:]},
        "buffer": {a: draw(st.sampled_from([0, 0, 1, 2, 3, 5])) for a in axes[1:]},
        "order": draw(st.permutations(axes)),
        "unit": draw(st.sampled_from(["ns", "ns", "us", "s"])),
        "before_epoch": draw(st.booleans()),
        "cols": draw(st.sampled_from([1, 2, 3])),
    }
    return c


def to_dates(hours, unit, before):
    base = np.datetime64("1969-12-30T00" if before else "2021-03-01T00", "h")
    return (base + np.array(hours, "m8[h]")).astype(f"M8[{unit}]")


def visible(c, axis):
    """per local step: indices of the rows shown (chronological), and how many are new since the step before"""
    day = lambda h: (h // 24) * 24
    loc, sec = c["times"]["t_loc"], c["times"][axis]
    out, seen = [], 0
    for h in loc:
        limit = day(h) if c["freq"][axis] else h
        n = sum(1 for s in sec if s < limit)
        out.append((n, n - seen))
        seen = max(seen, n)
    return out


def expected_index(c, axis):
    """row index shown at every step (marker where there is none)"""
    L = c["buffer"][axis]
    rows = []
    for n, new in visible(c, axis):
        shown = n > 0 and (c["ffill"][axis] or new > 0)
        if L:
            last = list(range(n))[-L:] if shown else []
            rows.append([MARK] * (L - len(last)) + last)
        else:
            rows.append(n - 1 if shown else MARK)
    return np.array(rows)


def stream_args(c):
    return dict(
        local_time="t_loc",
        ffills={a: v for a, v in c["ffill"].items() if v is not None},
        freqs={a: "d" for a, v in c["freq"].items() if v},
        buffer_maxlen={a: v for a, v in c["buffer"].items() if v},
        pbar=False,
    )


def dataset(c, variables):
    import xarray as xr

    coords = {a: to_dates(c["times"][a], c["unit"], c["before_epoch"]) for a in c["order"]}
    return xr.Dataset(variables, coords=coords)


def reason(c):
    for a in c["ffill"]:
        v = visible(c, a)
        if v[0][0] < len(c["times"][a]) and v[-1][0] > 0 and len(v) > 1:
            return "rows appear during the run"
    return None


@R.facet("index", layout(max_local=14, max_sec=14), quick=3000, thorough=60000, weight=4, secs=60)
def _(c):
    """the traced index of every axis"""
    from wax.stream import Stream

    v = {f"v_{a}": ((a,), np.arange(len(t), dtype=np.float32)) for a, t in c["times"].items()}
    v["scalar"] = ((), np.float32(2.5))
    ds = dataset(c, v)
    data, index, xs = Stream(**stream_args(c)).trace_dataset(ds)
    T = len(c["times"]["t_loc"])
    same(np.asarray(xs), np.arange(T), "steps")
    same(np.asarray(index["v_t_loc"]), np.arange(T), "local rows")
    for a in c["ffill"]:
        same(np.asarray(index[f"v_{a}"]), expected_index(c, a), f"rows shown of {a}")
    return reason(c)


@st.composite
def long_layout(draw):
    """long axes by their seed: many axes, many rows per step or many steps per row, long buffers"""
    c = draw(layout())
    axes = ["t_loc"] + ["t_b", "a_t", "z_t", "m_t"][: draw(st.integers(1, 4))]
    c["order"] = draw(st.permutations(axes))
    c["seed"] = draw(st.integers(0, 9999))
    c["len"] = {a: draw(st.sampled_from([1, 40, 150, 400])) for a in axes}
    c["pace"] = {a: draw(st.sampled_from([1, 6, 24, 24 * 7])) for a in axes}
    c["ffill"] = {a: draw(st.sampled_from([True, True, False, None])) for a in axes[1:]}
    c["freq"] = {a: draw(st.booleans()) for a in axes[1:]}
    c["buffer"] = {a: draw(st.sampled_from([0, 0, 7, 20, 64])) for a in axes[1:]}
    return c


def with_times(c):
    rng = np.random.default_rng(c["seed"])
    return dict(
        c, times={a: [int(v) for v in rng.integers(-50, 50) + np.cumsum(rng.integers(0, 2 * c["pace"][a] + 1, n))] for a, n in sorted(c["len"].items())}
    )


@R.facet("long_axes", long_layout(), quick=60, thorough=4000, weight=3, secs=60)
def _(c):
    """the traced index over axes of hundreds of rows"""
    from wax.stream import Stream

    c = with_times(c)
    v = {f"v_{a}": ((a,), np.arange(len(t), dtype=np.float32)) for a, t in c["times"].items()}
    data, index, xs = Stream(**stream_args(c)).trace_dataset(dataset(c, v))
    same(np.asarray(index["v_t_loc"]), np.arange(len(c["times"]["t_loc"])), "local rows")
    for a in c["ffill"]:
        same(np.asarray(index[f"v_{a}"]), expected_index(c, a), f"rows shown of {a}")
    return reason(c)


@st.composite
def values_case(draw):
    c = draw(layout(max_axes=3, max_local=6, max_sec=6))
    n = 3
    c["kinds"] = {a: draw(st.lists(st.sampled_from(["f1", "f2", "f3", "i1", "i2", "w1", "g1", "b1", "s1", "d1", "d2"]), min_size=1, max_size=2, unique=True)) for a in c["times"]}
    c["static"] = draw(st.lists(st.sampled_from(["scalar", "vec", "mat", "ivec", "word"]), max_size=3, unique=True))
    c["wlen"] = draw(st.sampled_from([4, 4, 1, 23]))
    c["route"] = draw(st.sampled_from(["accessor", "stream"]))
    return c


def make_var(kind, a, n, cols, salt):
    rs = np.random.RandomState(n * 7 + salt)
    if kind == "f1":
        return (a,), rs.randint(-50, 50, n).astype(np.float64) / 8
    if kind == "f2":
        return (a, "c"), rs.randint(-50, 50, (n, cols)).astype(np.float32) / 8
    if kind == "f3":
        return (a, "c", "k"), rs.randint(-50, 50, (n, cols, 2)).astype(np.float32) / 8
    if kind == "i1":
        return (a,), rs.randint(-50, 50, n).astype(np.int64)
    if kind == "g1":
        return (a,), rs.choice(np.array([np.inf, -np.inf, np.nan, 0.1, -2.5e30, 1e-30, 123456789.0]), n)
    if kind == "w1":
        return (a,), rs.randint(-(2**31), 2**31, n)
    if kind == "i2":
        return (a, "c"), rs.randint(-50, 50, (n, cols)).astype(np.int32)
    if kind == "b1":
        return (a,), rs.rand(n) > 0.5
    if kind == "s1":
        return (a,), np.array([f"w{i}" for i in rs.randint(0, 5, n)])
    if kind == "d1":
        return (a,), np.array([f"2020-01-{i:02d}" for i in rs.randint(1, 28, n)], dtype="M8[ns]")
    if kind == "d2":
        return (a, "c"), np.array([f"1969-12-{i:02d}" for i in rs.randint(1, 28, n * cols)], dtype="M8[ns]").reshape(n, cols)
    raise KeyError(kind)


def encoded(v):
    if v.dtype.kind == "U":
        return np.searchsorted(np.unique(v), v)
    if v.dtype.kind == "M":
        u = v.astype("M8[ns]").astype(np.int64)
        return np.stack([(u >> 32) & 0xFFFFFFFF, u & 0xFFFFFFFF], axis=-1).astype(np.uint32)
    return v


def marker(dtype):
    return {"f": np.nan, "i": MARK, "b": False, "u": 0}[np.dtype(dtype).kind]


def show(v, idx):
    """rows idx of v, the marker where idx < 0"""
    out = v[np.maximum(idx, 0)].copy()
    out[idx < 0] = marker(v.dtype)
    return out


@R.facet("values", values_case(), quick=200, thorough=4000, weight=6, secs=100)
def _(c):
    """values presented to the module, for all kinds of variables"""
    from wax.accessors import register_wax_accessors
    from wax.stream import Stream

    register_wax_accessors()
    variables, kinds = {}, {}
    for k, a in enumerate(c["times"]):
        for kind in c["kinds"][a]:
            name = f"{a}_{kind}"
            dims, val = make_var(kind, a, len(c["times"][a]), c["cols"], k)
            variables[name] = (dims, val)
            kinds[name] = a
    w = np.random.RandomState(c["wlen"])
    L = c["wlen"]
    static = {
        "scalar": ((), np.float32(2.5)),
        "vec": (("w",), w.randint(-50, 50, L).astype(np.float32)),
        "mat": (("w", "k"), w.randint(-50, 50, (L, 2)).astype(np.float32)),
        "ivec": (("w",), w.randint(-50, 50, L).astype(np.int32)),
        "word": (("w",), np.array([f"w{i}" for i in w.randint(0, 9, L)])),
    }
    for s in c["static"]:
        variables[s] = static[s]
    ds = dataset(c, variables)
    before = ds.copy(deep=True)
    if c["route"] == "accessor":
        out, _ = ds.wax.stream(format_outputs=False, **stream_args(c)).apply(lambda d: d)
    else:
        f, xs = Stream(**stream_args(c)).prepare(ds, lambda d: d)
        p, s = f.init(None, xs)
        out, _ = f.apply(p, s, None, xs)
    assert ds.identical(before), "the dataset was modified"
    T = len(c["times"]["t_loc"])
    assert set(out) == set(variables), f"variables {sorted(out)}"
    for name, a in kinds.items():
        v = encoded(variables[name][1])
        idx = np.arange(T) if a == "t_loc" else expected_index(c, a)
        exp = show(v, idx)
        got = np.asarray(out[name])
        assert got.shape == exp.shape, f"{name}: shape {got.shape} instead of {exp.shape}"
        if exp.dtype.kind == "f":
            exp = exp.astype(np.float32)
        same(got, exp, name)
    for s in c["static"]:
        v = encoded(np.asarray(static[s][1]))
        same(np.asarray(out[s]), np.broadcast_to(v, (T,) + v.shape), s)
    return reason(c) or ("static variable" if c["static"] and T > 2 else None)


@st.composite
def generator_case(draw):
    c = draw(layout(max_local=10, max_sec=10))
    c["fill"] = draw(st.sampled_from([None, None, -7.0, 0.0]))
    c["integers"] = draw(st.booleans())
    return c


@R.facet("generator", generator_case(), quick=2000, thorough=20000, weight=3, secs=60)
def _(c):
    """the merged generator of values and times (no tracing)"""
    from wax.stream import DTYPE_INIT_VALUES, Stream, split_dataset_from_time_dims

    dtype = np.int64 if c["integers"] else np.float32
    v = {f"v_{a}": ((a, "c"), np.arange(len(t) * 2, dtype=dtype).reshape(-1, 2)) for a, t in c["times"].items()}
    ds = dataset(c, v)
    more = {}
    if c["fill"] is not None:
        more["buffer_dtype_init_values"] = {**DTYPE_INIT_VALUES, np.float32: c["fill"], np.int64: int(c["fill"])}
    s = Stream(trace=False, **stream_args(c), **more)
    steps = list(s.merge(s.start_dataset_streams(split_dataset_from_time_dims(ds))))
    T = len(c["times"]["t_loc"])
    assert len(steps) == T, f"{len(steps)} steps for {T} local times"
    for t, step in enumerate(steps):
        assert set(step) == set(c["times"]), f"axes {sorted(step)}"
        o = step["t_loc"]
        assert o.time == ds["t_loc"].values[t], "local time"
        same(np.asarray(o.value["v_t_loc"]), v["v_t_loc"][1][t], "local row")
        for a in c["ffill"]:
            idx = expected_index(c, a)[t]
            e = show(v[f"v_{a}"][1], np.atleast_1d(idx))
            if c["fill"] is not None:
                e[np.atleast_1d(idx) < 0] = c["fill"]
            same(np.asarray(step[a].value[f"v_{a}"]), e.reshape(np.shape(idx) + (2,)), f"{a} at step {t}")
            # a time is shown together with its row
            tm = list(step[a].time) if np.ndim(idx) else [step[a].time]
            for i, x in zip(np.atleast_1d(idx), tm):
                if i >= 0:
                    assert x == ds[a].values[i], f"time of the row of {a}"
                else:
                    assert x != x or str(x) == "NaT", f"time {x} without row"
    return reason(c)


@R.facet("single_axis", st.fixed_dictionaries({"t": times(12), "named": st.booleans(), "unit": st.sampled_from(["ns", "us", "s"])}), quick=60, thorough=1500, weight=2, secs=40)
def _(c):
    """one time axis: every row once, whether the local axis is named or not"""
    import xarray as xr
    from wax.stream import Stream

    n = len(c["t"])
    ds = xr.Dataset(
        {"a": (("t", "c"), np.arange(2.0 * n).reshape(n, 2)), "w": (("c",), np.array([5.0, 7.0])), "k": ((), 3)},
        coords={"t": to_dates(c["t"], c["unit"], False)},
    )
    f, xs = Stream(local_time="t" if c["named"] else "").prepare(ds, lambda d: d)
    p, s = f.init(None, xs)
    out, _ = f.apply(p, s, None, xs)
    same(np.asarray(out["a"]), ds["a"].values.astype(np.float32), "rows")
    same(np.asarray(out["w"]), np.broadcast_to(np.array([5, 7], np.float32), (n, 2)), "static")
    same(np.asarray(out["k"]), np.full(n, 3, np.int32), "scalar")
    return "three steps" if n > 2 else None


@R.facet("local_axis_needed", layout(), quick=20, thorough=200, weight=1, secs=20)
def _(c):
    """several time axes and no local one: refused"""
    from wax.stream import Stream

    ds = dataset(c, {f"v_{a}": ((a,), np.arange(len(t), dtype=np.float32)) for a, t in c["times"].items()})
    a = stream_args(c)
    a.pop("local_time")
    try:
        Stream(**a).trace_dataset(ds)
    except ValueError:
        return "refused"
    raise AssertionError("no local axis given and several available, but no error")


@R.facet(
    "unroll_stream",
    st.fixed_dictionaries({"n": st.integers(1, 6), "skip": st.booleans()}),
    quick=40,
    thorough=400,
    weight=1,
    secs=20,
)
def _(c):
    """collecting a generator keeps every element, in every leaf"""
    from wax.stream import unroll_stream

    if c["skip"] and c["n"] < 2:
        return None
    items = [{"a": np.float32(i), "b": (np.arange(2) + i, np.int64(-i))} for i in range(c["n"])]
    out = unroll_stream(iter(items), skip_first=c["skip"], pbar=False)
    k = items[1:] if c["skip"] else items
    same(out["a"], np.array([v["a"] for v in k]), "leaf a")
    same(out["b"][0], np.stack([v["b"][0] for v in k]), "leaf b0")
    same(out["b"][1], np.array([v["b"][1] for v in k]), "leaf b1")
    return "collected" if c["n"] > 1 else None


@R.probe("string-matrix-rows")
def _():
    """a string variable with two dimensions is flattened by its encoder: the row shown is an element"""
    import xarray as xr
    from wax.stream import Stream

    v = np.array([["b", "a"], ["d", "c"], ["a", "d"]])
    ds = xr.Dataset({"v": (("t", "c"), v)}, coords={"t": to_dates([0, 24, 48], "ns", False)})
    f, xs = Stream().prepare(ds, lambda d: d)
    p, s = f.init(None, xs)
    out, _ = f.apply(p, s, None, xs)
    same(np.asarray(out["v"]), encoded(v).reshape(v.shape).astype(np.int32), "rows of a string matrix")
