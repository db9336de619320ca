"""C12: forward fill, filling of missing/infinite values, change detection, counter."""
import jax
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from common import NAN, arr, has_nan, history, long_case, long_data, long_holding, same, Via, via
from harness import Registry
from run import cached, fx_scan, hk_scan, to_np

R = Registry(
    "C12",
    rule="data with a missing or infinite value / a history with both equal and different consecutive values",
    assumptions=[
        "change detection: two consecutive missing values in one position are not judged; the first "
        "call on integer data is not judged (its start marker is a legal integer)"
    ],
)
BACKENDS = ["haiku", "flax"]
INF = float("inf")


def mods(backend):
    if backend == "haiku":
        import wax.modules as m
        from wax.modules.counter import Counter

        return m, Counter
    import wax.flax.modules as m

    return Via(m), via(m.Counter)


def build(backend, name, arg=None):
    m, Counter = mods(backend)
    make = {
        "ffill": lambda: m.Ffill(),
        "fill": lambda: m.FillNanInf(fill_value=arg),
        "fill_default": lambda: m.FillNanInf(),
        "changed": lambda: m.HasChanged(),
    }[name]
    if backend == "haiku":
        return hk_scan(lambda x: make()(x))
    return fx_scan(make)


get = cached(build)


@st.composite
def with_inf(draw, **k):
    x = draw(history(**k))
    for _ in range(draw(st.integers(0, 3))):
        t = draw(st.integers(0, len(x) - 1))
        j = draw(st.integers(0, len(x[0]) - 1))
        x[t][j] = draw(st.sampled_from([INF, -INF]))
    return x


def shaped(x, shape):
    a = arr(x)
    return a[:, 0] if not shape else a.reshape((len(a), *shape))


@R.facet(
    "ffill",
    st.fixed_dictionaries(
        {
            "backend": st.sampled_from(BACKENDS),
            "x": with_inf(N=4, lengths=(3, 12, 50)),
            "shape": st.sampled_from([[], [4], [2, 2]]),
        }
    ),
    quick=300,
    thorough=5000,
    weight=1.5,
    secs=40,
)
def _(c):
    a = shaped(c["x"], c["shape"])
    ys, _, _ = to_np(get(c["backend"], "ffill")(a))
    e = pd.DataFrame(a.reshape(len(a), -1)).ffill().values.reshape(a.shape)
    same(ys, e.astype(np.float32), "forward fill")
    return "missing value" if np.isnan(a).any() else None


@R.facet(
    "fill",
    st.fixed_dictionaries(
        {
            "backend": st.sampled_from(BACKENDS),
            "x": with_inf(N=4, lengths=(3, 12)),
            "value": st.sampled_from([None, 0.0, -1.5, 3.0, 1e30]),
            "tree": st.booleans(),
        }
    ),
    quick=300,
    thorough=5000,
    weight=1.5,
    secs=40,
)
def _(c):
    a = arr(c["x"])
    # the largest finite numbers must survive
    a = a.copy()
    a[0, 0] = np.finfo(np.float32).max
    ints = np.arange(len(a), dtype=np.int32) - 3
    f = get(c["backend"], "fill_default" if c["value"] is None else "fill", c["value"])
    v = np.float32(0.0 if c["value"] is None else c["value"])
    e = np.where(np.isfinite(a), a, v)
    if c["tree"]:
        ys, _, _ = to_np(f({"a": a, "b": (a[:, 1], [a * 2, ints])}))
        assert set(ys) == {"a", "b"} and isinstance(ys["b"], tuple)
        same(ys["b"][0], e[:, 1], "nested fill")
        with np.errstate(over="ignore"):
            a2 = a * 2
        same(ys["b"][1][0], np.where(np.isfinite(a2), a2, v), "nested fill")
        same(ys["b"][1][1], ints, "integers untouched")
        ys = ys["a"]
    else:
        ys, _, _ = to_np(f(a))
    same(ys, e, "fill")
    return "missing or infinite value" if not np.isfinite(a).all() else None


changed_case = st.fixed_dictionaries(
    {
        "backend": st.sampled_from(BACKENDS),
        "dtype": st.sampled_from(["float32", "int32", "bool", "uint32"]),
        "shape": st.sampled_from([[], [1], [3], [3, 2]]),
        "steps": st.lists(
            # hold the previous value / change one component / fresh values
            st.one_of(
                st.just(["hold"]),
                st.tuples(st.just("one"), st.integers(0, 5), st.integers(-3, 3)).map(list),
                st.tuples(st.just("new"), st.lists(st.integers(-3, 3), min_size=6, max_size=6)).map(list),
                st.tuples(st.just("nan"), st.integers(0, 5)).map(list),
            ),
            min_size=20,
            max_size=20,
        ),
        "far": st.sampled_from([0, 0, 2000000000]),
    }
)


@R.facet("changed", changed_case, quick=300, thorough=5000, weight=2, secs=40)
def _(c):
    n = int(np.prod(c["shape"])) if c["shape"] else 1
    cur = np.ones(n, dtype=np.float64)
    rows = [cur]
    for s in c["steps"]:
        cur = cur.copy()
        if s[0] == "one":
            cur[s[1] % n] = s[2]
        elif s[0] == "new":
            cur = np.array(s[1][:n], dtype=np.float64)
        elif s[0] == "nan" and c["dtype"] == "float32":
            cur[s[1] % n] = np.nan
        rows.append(cur)
    a = np.stack(rows)
    if c["dtype"] == "uint32":
        a = np.abs(a) + c["far"]
    elif c["dtype"] == "int32":
        a = a + c["far"] * np.where(np.arange(len(a)) % 5 == 0, -1, 1)[:, None]
    elif c["dtype"] == "bool":
        a = a > 0
    a = a.astype(c["dtype"]).reshape((len(a), *c["shape"]))
    ys, _, _ = to_np(get(c["backend"], "changed")(a))
    assert ys.shape == (len(a),) and ys.dtype == bool, (ys.shape, ys.dtype)
    if c["dtype"] == "float32":
        assert ys[0], "the first value differs from nothing seen so far"
    seen = set()
    for t in range(1, len(a)):
        p, q = np.ravel(a[t - 1]), np.ravel(a[t])
        both = np.isnan(p) & np.isnan(q) if c["dtype"] == "float32" else np.zeros(p.shape, bool)
        diff = bool(((p != q) & ~both).any())
        if diff or not both.any():
            assert bool(ys[t]) == diff, f"step {t}: {q} after {p}: reported {ys[t]}"
            seen.add(diff)
    return "both outcomes" if len(seen) == 2 else None


def build_counter(backend, guarded):
    import haiku as hk

    _, Counter = mods(backend)
    if backend == "haiku":

        def fun(x):
            c = Counter()
            a = c()
            if guarded:
                return a, c()
            return a

        return hk_scan(fun)
    import flax.linen as nn

    class M(nn.Module):
        @nn.compact
        def __call__(self, x):
            c = Counter()
            a = c()
            if guarded:
                return a, c()
            return a

    return fx_scan(M)


get_counter = cached(build_counter)


@R.facet(
    "counter",
    st.fixed_dictionaries(
        {
            "backend": st.sampled_from(BACKENDS),
            "T": st.sampled_from([1, 2, 7, 40, 300]),
            "twice": st.booleans(),
        }
    ),
    quick=30,
    thorough=60,
    weight=1,
    secs=30,
)
def _(c):
    ys, state, _ = to_np(get_counter(c["backend"], c["twice"])(np.zeros(c["T"], np.float32)))
    n = np.arange(1, c["T"] + 1)
    if c["twice"]:
        assert (ys[0] == 2 * n - 1).all() and (ys[1] == 2 * n).all(), ys
    else:
        assert (ys == n).all(), ys
    leaf = jax.tree_util.tree_leaves(state)
    assert len(leaf) == 1 and int(leaf[0]) == (2 if c["twice"] else 1) * c["T"]
    return "several calls" if c["T"] > 1 else None


# --------------------------------------------------------------- long and wide histories


@R.facet(
    "long_history",
    st.fixed_dictionaries(
        {
            "backend": st.sampled_from(BACKENDS),
            "name": st.sampled_from(["ffill", "ffill", "fill_default", "changed"]),
            "d": long_case(lengths=(300, 700, 3000), columns=(1, 3, 40)),
            "inf": st.booleans(),
        }
    ),
    quick=40,
    thorough=1200,
    weight=1.5,
    secs=60,
)
def _(c):
    f = get(c["backend"], c["name"], *([None] if c["name"] == "fill_default" else []))
    if c["name"] == "changed":
        a = long_holding(c["d"]).astype(np.int32)
        ys, _, _ = to_np(f(a))
        e = (a[1:] != a[:-1]).any(axis=1)
        assert (ys[1:] == e).all(), f"changes reported at {np.flatnonzero(ys)}, expected {np.flatnonzero(e) + 1}"
        return "held for long" if e.any() else None
    a = long_data(c["d"]).astype(np.float32)
    if c["inf"]:
        a[:: 1 + c["d"]["rare"], 0] = np.inf
        a[1 :: 1 + c["d"]["rare"], -1] = -np.inf
    ys, _, _ = to_np(f(a))
    if c["name"] == "ffill":
        same(ys, pd.DataFrame(a).ffill().values, "forward fill")
    else:
        same(ys, np.where(np.isfinite(a), a, np.float32(0)), "fill")
    return "missing value" if not np.isfinite(a).all() else None


# --------------------------------------------------------------- integers

import whole  # noqa: E402
from catalog import op as catalog_op  # noqa: E402

whole.register(R, catalog_op(["ffill", "fill", "counter"]), quick=30)
whole.register_double(R, catalog_op(["ffill", "fill", "counter"]), quick=20)
whole.register_scaled(R, ["ffill", "changed", "fill"], quick=30)
