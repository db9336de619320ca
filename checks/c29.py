"""C29: conveniences (progress display, verbosity, factories, reuse of a stream, comparison helper) change no result."""
import contextlib
import dataclasses
import io
import os

os.environ.pop("TQDM_DISABLE", None)  # the progress bars themselves are exercised here

import flax.linen as nn
import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np
import optax
from hypothesis import strategies as st

from common import arr, matrix, tree_close
from c05 import dataset, layout, make_var, stream_args
from harness import Registry
from run import fx_scan, key, to_np

R = Registry(
    "C29",
    rule="the convenience is switched on, or used a second time, on a history of at least two rows; for the comparison helper: the two trees differ",
    assumptions=["a display writes to the standard streams only"],
)


def equal(a, b, what):
    """same structure, same values (the programs are the same: only rounding is left to them)"""
    ta, tb = jax.tree_util.tree_structure(a), jax.tree_util.tree_structure(b)
    assert ta == tb, f"{what}: structure {ta} instead of {tb}"
    tree_close(a, b, 1e-5, 1e-6, what)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()) as o, contextlib.redirect_stderr(io.StringIO()) as e:
        yield o, e


# ---------------------------------------------------------------- progress bars of unrolls
PROGRESS = ["unroll", "transform", "static_unroll", "flax_unroll", "flax_transform", "data_unroll", "batch_static"]


@st.composite
def progress_case(draw):
    c = draw(matrix(draw(st.integers(2, 9)), 3))
    return {"x": c, "prog": draw(st.sampled_from(sorted(HK))), "route": draw(st.sampled_from(PROGRESS)), "skip": draw(st.booleans()), "dynamic": draw(st.sampled_from([False, False, False, True])), "seed": draw(st.integers(0, 5))}


def _hk(name):
    import wax.modules as M

    return {
        "ewma": lambda x: M.EWMA(com=2)(x),
        "buffer": lambda x: M.Buffer(3)(x),
        "pair": lambda x: (M.Lag(1)(x), {"c": M.HasChanged()(x)}),
        "random": lambda x: x + jax.random.normal(hk.next_rng_key(), x.shape),
        "linear": lambda x: hk.Linear(2)(jnp.nan_to_num(x)),
    }[name]


def _fx(name):
    import wax.flax.modules as M

    class Pair(nn.Module):
        @nn.compact
        def __call__(self, x):
            return M.Lag(lag=1)(x), {"c": M.HasChanged()(x)}

    class Linear(nn.Module):
        @nn.compact
        def __call__(self, x):
            return nn.Dense(2)(jnp.nan_to_num(x))

    return {
        "ewma": lambda: M.EWMA(com=2.0),
        "buffer": lambda: M.Buffer(maxlen=3),
        "pair": Pair,
        "random": lambda: M.EWMVar(com=2.0),
        "linear": Linear,
    }[name]


HK = ["ewma", "buffer", "pair", "random", "linear"]


def run_progress(c, pbar):
    from wax.flax.core import flax_unroll
    from wax.flax.core.unroll import flax_unroll_transform
    from wax.transform import transform_batch_with_state_static
    from wax.unroll import data_unroll, static_unroll, unroll, unroll_transform_with_state

    x = jnp.asarray(arr(c["x"]))
    k = jax.random.PRNGKey(c["seed"])
    kw = dict(skip_first=c["skip"])
    route = c["route"]
    if route == "unroll":
        return unroll(_hk(c["prog"]), dynamic=c["dynamic"], pbar=pbar, return_final_state=True, rng=k, **kw)(x)
    if route == "transform":
        f = unroll_transform_with_state(_hk(c["prog"]), dynamic=c["dynamic"], pbar=pbar, **kw)
        p, s = f.init(k, x)
        return p, f.apply(p, s, k, x)
    if route == "static_unroll":
        return static_unroll(hk.transform_with_state(_hk(c["prog"])), None, None, k, c["skip"], x, pbar=pbar)
    if route == "flax_unroll":
        return flax_unroll(_fx(c["prog"]), dynamic=c["dynamic"], pbar=pbar, return_final_state=True, rng=k, **kw)(x)
    if route == "flax_transform":
        f = flax_unroll_transform(_fx(c["prog"]), dynamic=c["dynamic"], pbar=pbar, **kw)
        p, s = f.init(k, x)
        return p, f.apply(p, s, k, x)
    if route == "batch_static":
        f = transform_batch_with_state_static(hk.transform_with_state(_hk(c["prog"])), pbar=pbar, **kw)
        p, s = f.init(k, x)
        return p, f.apply(p, s, k, x)
    if route == "data_unroll":
        return data_unroll((({"x": row, "n": jnp.asarray(i)}, {}) for i, row in enumerate(x)), pbar=pbar)


@R.facet("progress", progress_case(), quick=60, thorough=1200, weight=6, secs=90)
def _(c):
    """unrolls with a progress bar"""
    x = arr(c["x"])
    if c["skip"] and len(x) < 2:
        return None
    with quiet() as (o, e):
        shown = run_progress(c, True)
    plain = run_progress(c, False)
    equal(to_np(shown), to_np(plain), "with progress bar")
    return f"{len(x)} steps" if len(x) > 1 and e.getvalue() else None


# ---------------------------------------------------------------- verbose streams
@st.composite
def display_case(draw):
    c = draw(layout(max_axes=3, max_local=6, max_sec=6))
    names = list(c["times"])
    c["kinds"] = {a: draw(st.sampled_from(["f1", "f2", "i1", "s1", "d1"])) for a in names}
    some = st.lists(st.sampled_from(names), min_size=1, max_size=3, unique=True)
    c["verbose"] = draw(st.one_of(st.just(True), st.just(False), some))
    c["pbar"] = draw(st.one_of(st.just(True), some, st.just(False)))
    c["route"] = draw(st.sampled_from(["accessor", "stream", "trace"]))
    return c


@R.facet("display", display_case(), quick=100, thorough=2500, weight=4, secs=60)
def _(c):
    """synchronised streams with prints and progress bars"""
    from wax.accessors import register_wax_accessors
    from wax.stream import Stream

    register_wax_accessors()
    variables = {}
    for k, a in enumerate(c["times"]):
        dims, val = make_var(c["kinds"][a], a, len(c["times"][a]), c["cols"], k)
        variables[f"v_{a}"] = (dims, val)
    ds = dataset(c, variables)

    def go(**display):
        kw = {**stream_args(c), **display}
        if c["route"] == "accessor":
            out, s = ds.wax.stream(format_outputs=False, **kw).apply(lambda d: d)
            return to_np((out, s))
        f, xs = Stream(**kw).prepare(ds, lambda d: d)
        if c["route"] == "trace":
            return to_np(xs)
        p, s = f.init(None, xs)
        return to_np(f.apply(p, s, None, xs))

    with quiet():
        loud = go(verbose=c["verbose"], pbar=c["pbar"])
    equal(loud, go(verbose=False, pbar=False), "verbose")
    return "displayed" if (c["verbose"] or c["pbar"]) and len(c["times"]["t_loc"]) > 1 else None


# ---------------------------------------------------------------- the same stream object again
@st.composite
def reuse_case(draw):
    T = draw(st.integers(2, 7))
    K = draw(st.integers(1, 3))
    fns = st.lists(st.sampled_from(["double", "ewma", "lag", "cum", "linear"]), min_size=2, max_size=4)
    c = {"kind": draw(st.sampled_from(["frame", "series", "array", "dataset", "plain"])), "x": draw(matrix(draw(st.integers(3, 8)), 3, nan=False)), "fns": draw(fns), "state": draw(st.booleans()), "format": draw(st.booleans()), "skip": draw(st.lists(st.booleans(), min_size=4, max_size=4)), "sizes": draw(st.lists(st.integers(2, 6), min_size=4, max_size=4))}
    return c


def _fun(name, pick):
    from wax.modules import EWMA, Lag

    return {
        "double": lambda d: 2.0 * pick(d),
        "ewma": lambda d: EWMA(com=1)(pick(d)),
        "lag": lambda d: Lag(1)(pick(d)),
        "cum": lambda d: EWMA(alpha=0.5, adjust=False)(pick(d)) - pick(d),
        "linear": lambda d: pick(d) * hk.get_parameter("w", [], init=hk.initializers.RandomNormal()),
    }[name]


@R.facet("reuse", reuse_case(), quick=48, thorough=1500, weight=5, secs=80)
def _(c):
    """one configured stream applied several times, in any order"""
    import pandas as pd
    import xarray as xr
    from wax.accessors import register_wax_accessors
    from wax.stream import Stream

    register_wax_accessors()
    x = arr(c["x"])
    if len(x) < 3:
        return None
    t = pd.date_range("2021-01-01", periods=len(x), name="time")
    k = jax.random.PRNGKey(3)
    if c["kind"] == "plain":
        # a Stream applied to datasets of different lengths
        stream = Stream()
        for i, name in enumerate(c["fns"]):
            n = min(c["sizes"][i], len(x))
            ds = xr.Dataset({"v": (("time", "c"), x[:n])}, coords={"time": t[:n]})
            fun = _fun(name, lambda d: d["v"])
            skip = c["skip"][i]

            def go(s):
                f, xs = s.prepare(ds, fun, skip_first=skip)
                p, st_ = f.init(k, xs)
                return to_np((p, f.apply(p, st_, k, xs)))

            equal(go(stream), go(Stream()), f"use {i + 1}")
        return "several datasets"
    box = {
        "frame": lambda: pd.DataFrame(x, index=t),
        "series": lambda: pd.Series(x[:, 0], index=t),
        "array": lambda: xr.DataArray(x, dims=("time", "c"), coords={"time": t}),
        "dataset": lambda: xr.Dataset({"v": (("time", "c"), x)}, coords={"time": t}),
    }[c["kind"]]
    pick = (lambda d: d["v"]) if c["kind"] == "dataset" else (lambda d: d)
    kw = dict(return_state=c["state"], format_outputs=c["format"])
    held = box()
    stream = held.wax.stream(**kw)

    def go(s, name, skip):
        extra = {"format_dims": ["time", "c"]} if c["kind"] == "dataset" else {}
        return s.apply(_fun(name, pick), skip_first=skip, rng=k, **extra)

    def check(a, b, what):
        if not c["state"]:
            a, b = (a, ()), (b, ())
        equal(to_np(a[1]), to_np(b[1]), what + ", state")
        a, b = a[0], b[0]
        if hasattr(a, "equals"):
            assert type(a) is type(b) and a.equals(b), f"{what}: {a} instead of {b}"
        else:
            equal(to_np(a), to_np(b), what)

    for i, name in enumerate(c["fns"]):
        check(go(stream, name, c["skip"][i]), go(box().wax.stream(**kw), name, c["skip"][i]), f"use {i + 1} ({name})")
    # data changed in place between two uses is seen, through a new stream and through the one already made
    if c["kind"] == "frame":
        held.iloc[:, :] = x[::-1]
    elif c["kind"] == "series":
        held.iloc[:] = x[::-1, 0]
    elif c["kind"] == "array":
        held.values[:] = x[::-1]
    else:
        held["v"].values[:] = x[::-1]
    fresh = held.copy(deep=True)
    want = go(fresh.wax.stream(**kw), "ewma", False)
    check(go(held.wax.stream(**kw), "ewma", False), want, "after an assignment")
    check(go(stream, "ewma", False), want, "after an assignment, the stream already made")
    return "several functions"


# ---------------------------------------------------------------- factories
FLOATS = st.sampled_from([0.0, -1.5, float("nan"), 7.0])
AXIS = st.sampled_from([None, 1])
ADJ = st.sampled_from([True, False, "linear"])


def decay(d):
    d = dict(d)
    if d.pop("use_alpha"):
        d.pop("com")
    else:
        d.pop("alpha")
    return d


def opt_spec(**kw):
    return st.fixed_dictionaries({}, optional=kw)


DECAY = {"use_alpha": st.booleans(), "com": st.sampled_from([0.5, 2.0, 9.0]), "alpha": st.sampled_from([0.1, 0.5, 1.0])}
# name -> (class, options, kind of call)
FACT = {
    "buffer": ("Buffer", st.fixed_dictionaries({"maxlen": st.integers(1, 4)}, optional={"fill_value": FLOATS, "return_state": st.booleans()}), "x"),
    "lag": ("Lag", st.fixed_dictionaries({"lag": st.integers(1, 4)}, optional={"fill_value": FLOATS, "return_state": st.booleans()}), "x"),
    "diff": ("Diff", opt_spec(periods=st.just(1)), "x"),
    "rolling_mean": ("RollingMean", st.fixed_dictionaries({"horizon": st.integers(1, 4)}, optional={"min_periods": st.integers(1, 3)}), "x"),
    "pct_change": ("PctChange", opt_spec(periods=st.just(1), fill_method=st.sampled_from(["pad", "ffill"]), fillna_zero=st.booleans()), "x"),
    "ffill": ("Ffill", opt_spec(periods=st.just(1)), "x"),
    "fill_nan_inf": ("FillNanInf", opt_spec(fill_value=st.sampled_from([0.0, 2.0, -3.0])), "x"),
    "has_changed": ("HasChanged", opt_spec(), "x"),
    "counter": ("Counter", opt_spec(), "none"),
    "ohlc": ("OHLC", opt_spec(), "reset"),
    "ewma": ("EWMA", st.fixed_dictionaries(DECAY, optional={"adjust": ADJ, "ignore_na": st.booleans(), "min_periods": st.integers(0, 3), "initial_value": FLOATS}), "x"),
    "ewmvar": ("EWMVar", st.fixed_dictionaries(DECAY, optional={"adjust": ADJ}), "x"),
    "ewmcov": ("EWMCov", st.fixed_dictionaries(DECAY, optional={"adjust": ADJ, "ignore_na": st.booleans(), "min_periods": st.integers(0, 3), "assume_centered": st.booleans(), "initial_value": FLOATS}), "xy"),
    "arma": ("ARMA", st.fixed_dictionaries({"alpha": st.lists(st.sampled_from([0.5, -0.25, 0.1]), min_size=1, max_size=2), "beta": st.lists(st.sampled_from([0.5, -0.25, 0.1]), min_size=1, max_size=2)}), "clean"),
    "snarimax": ("SNARIMAX", opt_spec(lags_x=st.integers(0, 3), lags_y=st.integers(0, 3), regressor=st.just("sum")), "snarimax"),
    "apply_mask": ("ApplyMask", opt_spec(axis=AXIS, mask_value=st.sampled_from([0.0, -9.0])), "mask"),
    "mask_mean": ("MaskMean", opt_spec(axis=AXIS), "mask"),
    "mask_std": ("MaskStd", opt_spec(axis=AXIS, assume_centered=st.booleans()), "mask"),
    "mask_normalize": ("MaskNormalize", opt_spec(axis=AXIS, assume_centered=st.booleans()), "mask"),
    "vmap": ("VMap", st.fixed_dictionaries({"fun": st.just("fun")}, optional={"take_mean": st.booleans()}), "clean"),
    "online_optimizer": ("OnlineOptimizer", st.fixed_dictionaries({"model": st.just("model"), "opt": st.sampled_from(["sgd", "adam"])}, optional={"project_params": st.just("project"), "regularize_loss": st.just("l2"), "params_predicate": st.just("kernel")}), "clean"),
    "func_optimizer": ("FuncOptimizer", st.fixed_dictionaries({"fun": st.just("model"), "opt": st.sampled_from(["sgd", "adam"])}, optional={"has_aux": st.just(True), "params_predicate": st.just("kernel")}), "clean"),
    "online_supervised_learner": ("OnlineSupervisedLearner", st.fixed_dictionaries({"model": st.just("dense"), "loss_fn": st.just("loss"), "opt": st.sampled_from(["sgd", "adam"])}, optional={"params_predicate": st.just("kernel")}), "xy"),
    "simple_online_learner": ("SimpleOnlineLearner", st.fixed_dictionaries({"model": st.just("dense"), "loss_fn": st.just("loss"), "opt": st.sampled_from(["sgd", "adam"])}), "xy"),
    "update_params": ("UpdateParams", st.fixed_dictionaries({"fun": st.just("fun")}, optional={"predicate": st.just("kernel")}), "partition"),
}


class LossModel(nn.Module):
    aux: bool = True

    @nn.compact
    def __call__(self, x):
        y = nn.Dense(1)(x)
        loss = jnp.mean((y - 1.0) ** 2)
        return (loss, y) if self.aux else loss


def thing(name, d):
    if name == "model":
        return LossModel(aux=True) if d.get("has_aux", True) else LossModel(aux=False)
    return {
        "sgd": lambda: optax.sgd(0.125),
        "adam": lambda: optax.adam(0.125),
        "fun": lambda: jnp.tanh,
        "sum": lambda: lambda v: v.sum(keepdims=True) + v[..., :1],
        "dense": lambda: nn.Dense(1),
        "loss": lambda: lambda p, y: jnp.mean((p - y.sum()) ** 2),
        "project": lambda: lambda p: jax.tree_util.tree_map(lambda v: jnp.clip(v, -0.25, 0.25), p),
        "l2": lambda: lambda loss, params, aux: loss + 0.1 * sum(jnp.sum(v**2) for v in jax.tree_util.tree_leaves(params)),
        "kernel": lambda: lambda module, name, value: name == "kernel",
    }[name]()


@st.composite
def factory_case(draw):
    name = draw(st.sampled_from(sorted(FACT)))
    return {"name": name, "kw": draw(FACT[name][1]), "x": draw(matrix(draw(st.integers(2, 7)), 3)), "mask": draw(st.lists(st.booleans(), min_size=3, max_size=3))}


@R.facet("factories", factory_case(), quick=160, thorough=3000, weight=8, secs=100)
def _(c):
    """a module built by its factory function"""
    import importlib

    cls_name, _, kind = FACT[c["name"]]
    file = {"simple_online_learner": "online_supervised_learner"}.get(c["name"], c["name"])
    mod = importlib.import_module(f"wax.flax.modules.{file}")
    build, cls = getattr(mod, "create_" + c["name"]), getattr(mod, cls_name)
    d = dict(c["kw"])
    if "use_alpha" in d:
        d = decay(d)
    if kind == "clean" and c["name"] == "func_optimizer":
        d.setdefault("has_aux", False)
    d = {k: (thing(v, d) if isinstance(v, str) and k not in ("adjust", "fill_method") else jnp.array(v) if k in ("alpha", "beta") and isinstance(v, list) else v) for k, v in d.items()}
    if c["name"] == "func_optimizer" and not d["has_aux"]:
        d.pop("has_aux")
    x = arr(c["x"])
    if len(x) < 2:
        return None
    if kind in ("clean", "snarimax") or "optim" in c["name"] or "learner" in c["name"]:
        x = np.nan_to_num(np.clip(x, -5, 5))
    K = x.shape[1]
    if kind == "none":
        xs = ()
    elif kind == "reset":
        xs = (jnp.asarray(x), jnp.arange(len(x)) % 3 == 0)
    elif kind == "xy":
        xs = (jnp.asarray(x), jnp.asarray(x[:, ::-1] * 0.5))
    elif kind == "snarimax":
        xs = (jnp.asarray(x), jnp.asarray(x[:, ::-1] * 0.5))
    elif kind == "mask":
        ax = c["kw"].get("axis")
        m = np.array((c["mask"] * 3)[: 2 * K]).reshape(2, K) if ax is None or c["name"] != "apply_mask" else np.array((c["mask"] * 2)[: (2 if ax == 0 else K)])
        m = np.ones_like(m) if not m.any() else m
        data = np.stack([x, np.roll(x, 1, axis=1) * 2], axis=1)
        xs = (jnp.asarray(np.broadcast_to(m, (len(x),) + m.shape)), jnp.asarray(data))
    else:
        xs = (jnp.asarray(x),)

    if kind == "partition":
        tree = {"params": {"a": {"kernel": x[0], "bias": x[1]}, "b": {"bias": x[-1]}}}
        got, exp = (m.bind({}).partition_params(tree) for m in (build(**d), cls(**d)))
        equal(to_np(got), to_np(exp), "partition")
        equal(*(np.asarray(m.init_with_output(key(), x[0])[0]) for m in (build(**d), cls(**d))), "call")
        return "factory"

    def go(make):
        if kind == "none":
            m = make()
            y, v = m.init_with_output(key())
            out = [y]
            for _ in range(len(x)):
                y, v = m.apply(v, mutable=["state"])
                out.append(y)
            return to_np(out)
        if cls_name in ("OnlineOptimizer", "FuncOptimizer", "OnlineSupervisedLearner", "SimpleOnlineLearner"):
            # the result is a plain record, not a tree: step outside of a scan
            m, out, v = make(), [], None
            for t in range(min(len(x), 4)):
                args = [a[t] for a in xs]
                y, v = m.init_with_output(key(), *args) if v is None else m.apply(v, *args, mutable=list(v))
                out.append(vars(y) if dataclasses.is_dataclass(y) else y)
            return to_np(jax.tree_util.tree_leaves([jax.tree_util.tree_map(lambda r: vars(r) if dataclasses.is_dataclass(r) else r, out), v]))
        ys, s, p = fx_scan(make)(*xs)
        return to_np((ys, s, p))

    a, b = go(lambda: build(**d)), go(lambda: cls(**d))
    equal(a, b, f"create_{c['name']}({c['kw']})")
    return "factory"


# ---------------------------------------------------------------- comparison helper
LEAF = st.one_of(
    st.tuples(st.just("f"), st.lists(st.sampled_from([0.0, 1.0, -2.5, 1e3, 1e-3]), min_size=1, max_size=4)),
    st.tuples(st.just("i"), st.lists(st.integers(-1000000, 1000000), min_size=1, max_size=4)),
    st.tuples(st.just("u"), st.lists(st.integers(0, 4000000000), min_size=1, max_size=4)),
    st.tuples(st.just("b"), st.lists(st.booleans(), min_size=1, max_size=4)),
    st.tuples(st.just("n"), st.integers(-5, 5)),
)
TREE = st.recursive(
    LEAF.map(list),
    lambda t: st.one_of(st.lists(t, min_size=1, max_size=3).map(lambda v: ["list"] + v), st.dictionaries(st.sampled_from("abc"), t, min_size=1, max_size=3).map(lambda v: ["dict", v]), st.lists(t, min_size=1, max_size=2).map(lambda v: ["tuple"] + v)),
    max_leaves=5,
)
EDITS = ["none", "tiny", "value", "dtype", "drop", "container", "type", "key"]


def build_tree(spec, numpy, edit=None, at=0, count=None):
    count = count if count is not None else [0]
    if spec[0] in ("list", "tuple"):
        vals = [build_tree(s, numpy, edit, at, count) for s in spec[1:]]
        return vals if spec[0] == "list" else tuple(vals)
    if spec[0] == "dict":
        return {k: build_tree(s, numpy, edit, at, count) for k, s in spec[1].items()}
    mine = count[0] == at
    count[0] += 1
    kind, v = spec
    if kind == "n":
        return v + 1 if mine and edit == "value" else (float(v) if mine and edit == "type" else v)
    dt = {"f": np.float32, "i": np.int32, "u": np.uint32, "b": np.bool_}[kind]
    a = np.array(v, dtype=dt)
    if mine and edit == "tiny" and kind == "f":
        a = (a * np.float32(1 + 1e-7)).astype(dt)
    if mine and edit == "value":
        a = a.copy()
        a[-1] = (not a[-1]) if kind == "b" else (a[-1] + 1 if kind in "f" else (a[-1] + dt(1) if a[-1] < 2000000 else a[-1] - dt(1)))
    if mine and edit == "dtype":
        a = a.astype({"f": np.int32, "i": np.float32, "u": np.int32, "b": np.int32}[kind]) if kind != "f" else a.astype(np.float16)
    as_np = numpy if not (mine and edit == "type") else not numpy
    return a if as_np else jnp.asarray(a)


def nleaves(spec):
    if spec[0] in ("list", "tuple"):
        return sum(nleaves(s) for s in spec[1:])
    return sum(nleaves(s) for s in spec[1].values()) if spec[0] == "dict" else 1


def kinds_of(spec):
    if spec[0] in ("list", "tuple"):
        return [k for s in spec[1:] for k in kinds_of(s)]
    return [k for k_ in sorted(spec[1]) for k in kinds_of(spec[1][k_])] if spec[0] == "dict" else [spec[0]]


@R.facet("compare", st.fixed_dictionaries({"tree": TREE, "numpy": st.booleans(), "edit": st.sampled_from(EDITS), "at": st.integers(0, 4)}), quick=300, thorough=6000, weight=2, secs=40)
def _(c):
    """the tree comparison helper"""
    from wax.testing import assert_tree_all_close

    n = nleaves(c["tree"])
    at = c["at"] % n
    a = build_tree(c["tree"], c["numpy"])
    b = build_tree(c["tree"], c["numpy"], c["edit"], at)
    edit = c["edit"]
    if edit == "drop":
        b = [a] if not isinstance(a, list) else a[:-1]
    elif edit == "container":
        b = tuple(a) if isinstance(a, list) else list(a) if isinstance(a, tuple) else [b]
    elif edit == "key":
        b = {"z": b}
    # whether the edited leaf really differs: by type and content, leaf by leaf
    la, da = jax.tree_util.tree_flatten(a)
    lb, db = jax.tree_util.tree_flatten(b)
    differs = da != db
    for p, q in zip(la, lb):
        if type(p) is not type(q):
            differs = True
        elif isinstance(p, (int, float)):
            differs |= p != q
        else:
            differs |= p.dtype != q.dtype or not np.allclose(np.asarray(p, np.float64), np.asarray(q, np.float64), rtol=1e-5 if p.dtype.kind == "f" else 0, atol=1e-8 if p.dtype.kind == "f" else 0)
    try:
        assert_tree_all_close(a, b)
        accepted = True
    except AssertionError:
        accepted = False
    assert accepted == (not differs), f"accepted: {accepted}, edit {edit}: {a} / {b}"
    try:
        assert_tree_all_close(a, b, check_treedef=False)
        accepted = True
    except AssertionError:
        accepted = False
    if da == db:
        assert accepted == (not differs), f"without structure: accepted {accepted}"
    return edit if differs else None
