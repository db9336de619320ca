"""C24: compressed and hierarchical memories."""
import functools
import json

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from common import NAN, arr, close, same
from harness import Registry
from run import key

R = Registry(
    "C24",
    rule="the history is longer than the memory (or than one update period), or holds a gap",
    assumptions=[
        "memories are driven one observation at a time, eagerly, as their counters require; Flax's init "
        "already records the first observation",
        "quantiles are asked for in increasing order, of scalar observations",
        "a level that is not updated at a step shows its last content",
    ],
)


def drive(m, xs):
    """outputs after every step, and the final state"""
    y, var = m.init_with_output(key(), jnp.asarray(xs[0]))
    var = dict(var)
    params = var.pop("params", {})
    ys = [y]
    for x in xs[1:]:
        y, var = m.apply({"params": params, **var}, jnp.asarray(x), mutable=["state"])
        ys.append(y)
    return ys, var


def build(maxlen, compression, params, fill):
    from wax.flax.modules.compressed_buffer import CompressedBuffer

    return CompressedBuffer(maxlen=maxlen, compression=compression, compression_params=params, fill_value=fill)


def entries(state):
    return sum(int(np.size(v)) for v in jax.tree_util.tree_leaves(state))


def window(xs, n, fill):
    """the latest n of xs, oldest first, missing ones filled in front"""
    xs = np.asarray(xs, np.float32)
    pad = np.full((max(0, n - len(xs)),) + xs.shape[1:], fill, np.float32)
    return np.concatenate([pad, xs[-n:]]) if len(xs) else pad


def ewma(xs, alpha):
    """exponential average of the observations, weights by age"""
    xs = np.asarray(xs, np.float64)
    age = np.arange(len(xs))[::-1].reshape([-1] + [1] * (xs.ndim - 1))
    w = np.where(np.isnan(xs), 0, (1 - alpha) ** age)
    with np.errstate(all="ignore"):
        return (w * np.nan_to_num(xs)).sum(0) / w.sum(0)


VAL = st.integers(-40, 40).map(lambda v: v / 8)


@st.composite
def series(draw, lengths, shape=(), nan=False):
    T = draw(st.sampled_from(lengths))
    n = int(np.prod(shape, dtype=int))
    v = VAL if not nan else st.one_of(VAL, VAL, VAL, VAL, st.just(NAN))
    pool = draw(st.lists(v, min_size=T * n, max_size=T * n))
    return pool if not shape else [pool[i * n : (i + 1) * n] for i in range(T)]


@st.composite
def windows(draw):
    shape = draw(st.sampled_from([(), (), (2,)]))
    kind = draw(st.sampled_from(["none", "downsample", "downsample"]))
    maxlen = draw(st.integers(1, 9))
    params = None
    if kind == "downsample":
        params = draw(st.sampled_from([None, {"factor": 1}, {"factor": 2}, {"factor": 3}, {"factor": 5}]))
    return {
        "kind": kind,
        "maxlen": maxlen,
        "params": params,
        "fill": draw(st.sampled_from([0.0, -9.0, NAN])),
        "x": draw(series([1, 4, 12, 30], shape)),
    }


@R.facet("windows", windows(), quick=120, thorough=4000, weight=2, secs=60)
def _(c):
    k = 1 if c["kind"] == "none" else (c["params"] or {"factor": 2})["factor"]
    size = c["maxlen"] if c["kind"] == "none" else max(1, c["maxlen"] // k)
    ys, state = drive(build(c["maxlen"], c["kind"], c["params"], c["fill"]), arr(c["x"]))
    for t, y in enumerate(ys):
        same(y, window(c["x"][: t + 1][::k], size, c["fill"]), f"{c['kind']} memory (every {k}th, {size} entries) after step {t}")
    per = int(np.prod(np.shape(c["x"])[1:], dtype=int))
    assert entries(state) <= size * per + 8, f"{entries(state)} numbers held for {size} entries of {per}"
    return "longer than the memory" if len(c["x"]) > size * k else ("down-sampled" if k > 1 and len(c["x"]) > k else None)


@R.facet(
    "average",
    st.fixed_dictionaries(
        {
            "alpha": st.sampled_from([None, 0.01, 0.1, 0.5, 0.9]),
            "maxlen": st.integers(1, 50),
            "x": st.one_of(series([1, 5, 40], (), True), series([5, 20], (2,), True)),
        }
    ),
    quick=100,
    thorough=3000,
    weight=1.5,
    secs=60,
)
def _(c):
    x = arr(c["x"])
    ys, state = drive(build(c["maxlen"], "ewma", c["alpha"] and {"alpha": c["alpha"]}, 0.0), x)
    for t, y in enumerate(ys):
        close(y, ewma(x[: t + 1], c["alpha"] or 0.1), 1e-4, 1e-4, f"exponential summary after step {t}")
    assert entries(state) <= 4 * x[0].size + 2, f"{entries(state)} numbers held by an exponential summary"
    return "gap" if np.isnan(x).any() else ("several observations" if len(x) > 1 else None)


PCT = st.sampled_from([None, [0.5], [0.0, 1.0], [0.25, 0.5, 0.75], [0.1, 0.2, 0.9], [0.0, 0.3, 0.3, 0.6, 1.0]])


@R.facet(
    "quantiles",
    st.fixed_dictionaries(
        {
            "maxlen": st.sampled_from([1, 3, 10, 25, 100]),
            "pct": PCT,
            "fill": st.sampled_from([0.0, -9.0, 50.0, NAN]),
            "x": series([1, 9, 11, 25, 45], (), True),
            "shift": st.sampled_from([0.0, 100.0, -100.0]),
        }
    ),
    quick=100,
    thorough=3000,
    weight=2,
    secs=60,
)
def _(c):
    x = arr(c["x"]) + np.float32(c["shift"])
    pct = c["pct"] or [0.1, 0.25, 0.5, 0.75, 0.9]
    ys, state = drive(build(c["maxlen"], "quantile", c["pct"] and {"percentiles": c["pct"]}, c["fill"]), x)
    assert entries(state) <= c["maxlen"] + len(pct) + 8, f"{entries(state)} numbers held, bound {c['maxlen']}"
    prev, judged = np.full(len(pct), c["fill"], np.float32), 0
    for t, y in enumerate(np.asarray(ys)):
        assert y.shape == (len(pct),), f"shape {y.shape} for {len(pct)} quantiles"
        held = x[max(0, t + 1 - c["maxlen"]) : t + 1]
        held = held[~np.isnan(held)].astype(np.float64)
        if t % 10:  # refreshed every tenth observation
            same(y, prev, f"quantiles between two updates, step {t}")
        elif len(held):
            judged += len(held) > 1
            e = np.quantile(held, pct)
            close(y, e, 1e-5, 1e-4, f"quantiles {pct} of {held.tolist()} at step {t}")
            assert (np.diff(y) >= 0).all(), f"quantiles decrease: {y}"
            assert held.min() - 1e-4 <= y.min() and y.max() <= held.max() + 1e-4
        else:
            same(y, prev, f"quantiles without observation, step {t}")
        prev = y
    return "several retained observations" if judged else None


@R.facet(
    "sketch",
    st.fixed_dictionaries(
        {
            "hashes": st.integers(1, 4),
            "buckets": st.sampled_from([1, 7, 64]),
            "x": st.sampled_from([3, 12, 25]).flatmap(
                lambda T: st.lists(st.integers(-4, 4).map(lambda v: v / 2), min_size=T, max_size=T)
            ),
            "perm": st.randoms(use_true_random=False),
        }
    ).map(lambda d: dict(d, perm=d["perm"].sample(range(len(d["x"])), len(d["x"])))),
    quick=60,
    thorough=2000,
    weight=1,
    secs=40,
)
def _(c):
    x = arr(c["x"])
    p = {"num_hashes": c["hashes"], "num_buckets": c["buckets"]}
    ys, state = drive(build(1000, "sketching", p, 0.0), x)
    top = max(c["x"].count(v) for v in c["x"])
    s = np.asarray(state["state"]["sketch"])
    assert s.shape == (c["hashes"], c["buckets"]), f"sketch of shape {s.shape}"
    assert (s >= 0).all() and (s.sum(1) == len(x)).all(), f"rows count {s.sum(1)} observations of {len(x)}"
    assert (s.max(1) >= top).all(), f"{s.max(1)}: an observation seen {top} times is underestimated"
    for t, y in enumerate(np.asarray(ys)):
        assert y.shape == (c["buckets"],) and (y >= 0).all() and y.sum() <= t + 1, f"summary {y} after {t + 1}"
    same(ys[-1], s.min(0), "summary of the sketch")
    zs, _ = drive(build(1000, "sketching", p, 0.0), x[c["perm"]])
    same(zs[-1], ys[-1], "summary of the permuted history")
    return "repeated observations" if top > 1 and len(set(c["x"])) > 1 else None


# ------------------------------------------------ several levels


def level(kind, fed, maxlen, alpha, fill, n_updates):
    """expected content of one level fed with `fed` (non empty)"""
    if kind == "ewma":
        return ewma(fed, alpha)
    if kind == "none":
        return window(fed, maxlen, fill)
    if kind == "downsample":
        return window(fed[::2], max(1, maxlen // 2), fill)
    last = (len(fed) - 1) // 10 * 10 + 1
    return np.quantile(np.asarray(fed[max(0, last - min(maxlen, 1000)) : last], np.float64), [0.1, 0.25, 0.5, 0.75, 0.9])


KIND = st.sampled_from(["ewma", "quantile", "downsample", "none"])


@st.composite
def levels(draw):
    return {
        "recent": draw(st.integers(1, 8)),
        "medium": draw(st.integers(1, 12)),
        "long": draw(st.integers(1, 12)),
        "mk": draw(KIND),
        "lk": draw(KIND),
        "fill": draw(st.sampled_from([0.0, -9.0])),
        "x": draw(series([4, 7, 27, 58, 58, 108], draw(st.sampled_from([(), (), (2,)])))),
        "form": draw(st.sampled_from(["module", "module", "decorator"])),
    }


@R.facet("levels", levels(), quick=40, thorough=1500, weight=4, secs=80)
def _(c):
    from wax.flax.modules.compressed_buffer import HierarchicalBuffer, streaming_hierarchical_memory

    x = arr(c["x"])
    if x.ndim > 1:
        # quantiles are specified for scalar observations
        for k in ("mk", "lk"):
            c = dict(c, **{k: "none" if c[k] == "quantile" else c[k]})
    kw = dict(
        recent_maxlen=c["recent"],
        medium_maxlen=c["medium"],
        long_maxlen=c["long"],
        medium_compression=c["mk"],
        long_compression=c["lk"],
    )
    if c["form"] == "module":
        ys, _ = drive(HierarchicalBuffer(fill_value=c["fill"], **kw), x)
        fill = c["fill"]
    else:
        f = streaming_hierarchical_memory(**kw)(lambda mem, v: dict(mem, seen=v))
        params, state = f.init(key(), jnp.asarray(x[0]))
        ys, fill = [None], 0.0  # the initialisation recorded x[0]
        for v in x[1:]:
            y, state = f.apply(params, state, None, jnp.asarray(v))
            same(y["seen"], v, "argument of the decorated function")
            ys.append(y)
    for t, y in enumerate(ys):
        if y is None:
            continue
        what = f"{c['form']} {kw} after step {t}"
        same(y["input"], x[t], f"{what}: input")
        same(y["recent"], window(x[: t + 1], c["recent"], fill), f"{what}: recent level")
        for name, kind, period, alpha in (("medium", c["mk"], 5, 0.1), ("long", c["lk"], 50, 0.01)):
            e = level(kind, x[: t + 1 : period], c[name], alpha, fill, t // period + 1)
            close(y[name], e, 1e-4, 1e-4, f"{what}: {name} level ({kind}, every {period} steps)")
    return "several updates of a lower level" if len(x) > 5 else None


@R.facet(
    "decorator",
    st.fixed_dictionaries(
        {
            "kind": st.sampled_from(["ewma", "downsample", "none"]),
            "maxlen": st.integers(1, 6),
            "x": series([3, 12], (), False),
            "kwarg": st.booleans(),
        }
    ),
    quick=40,
    thorough=1000,
    weight=1,
    secs=40,
)
def _(c):
    from wax.flax.modules.compressed_buffer import streaming_compressed_memory

    x = arr(c["x"])
    f = streaming_compressed_memory(maxlen=c["maxlen"], compression=c["kind"])(lambda mem, v: (mem, v * 2))
    call = (lambda v: ((), {"v": v})) if c["kwarg"] else (lambda v: ((v,), {}))
    a, k = call(jnp.asarray(x[0]))
    params, state = f.init(key(), *a, **k)
    expected, _ = drive(build(c["maxlen"], c["kind"], None, 0.0), x)
    for t in range(1, len(x)):
        a, k = call(jnp.asarray(x[t]))
        (mem, v), state = f.apply(params, state, None, *a, **k)
        same(v, x[t] * 2, "result of the decorated function")
        close(mem, expected[t], 1e-6, 1e-6, f"memory given to the function at step {t}")
    return "longer than the memory" if len(x) > c["maxlen"] else None


@R.facet(
    "accounting",
    st.fixed_dictionaries(
        {
            "kind": st.sampled_from(["ewma", "quantile", "downsample", "sketching", "none"]),
            "maxlen": st.sampled_from([1, 2, 10, 500, 1000, 2000]),
            "recent": st.integers(1, 200),
            "long": st.sampled_from([1, 100, 999, 5000]),
            "lk": KIND,
        }
    ),
    quick=100,
    thorough=1000,
    weight=0.5,
    secs=20,
)
def _(c):
    from wax.flax.modules.compressed_buffer import HierarchicalBuffer

    u = build(c["maxlen"], c["kind"], None, 0.0).get_memory_usage()
    parts = sum(v for k, v in u.items() if k != "total")
    assert parts <= u["total"] <= parts + 4, f"total of {u}"
    if c["kind"] != "sketching":
        assert u["total"] <= max(8 * c["maxlen"], 12) + 48, f"{u} for {c['maxlen']} entries"
    m = "none" if c["kind"] == "sketching" else c["kind"]
    h = HierarchicalBuffer(
        recent_maxlen=c["recent"], medium_maxlen=c["maxlen"], long_maxlen=c["long"], medium_compression=m, long_compression=c["lk"]
    ).get_total_memory_usage()
    assert h["total"] == h["recent"] + h["medium"] + h["long"], f"total of {h}"
    assert h["recent"] == 8 * c["recent"], h
    alone = build(c["maxlen"], m, None, 0.0).get_memory_usage()["total"]
    assert h["medium"] == alone, f"medium level {h['medium']} bytes, the same memory alone {alone}"
    alone = build(c["long"], c["lk"], None, 0.0).get_memory_usage()["total"]
    assert h["long"] == alone, f"long level {h['long']} bytes, the same memory alone {alone}"
    raw = 8 * (c["recent"] + c["maxlen"] + c["long"])
    close(h["compression_ratio"], raw / h["total"], 1e-6, 1e-6, "compression ratio")
    return f"{m} over {c['maxlen']}"
