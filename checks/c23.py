"""C23: the Haiku and the Flax version of a module compute the same stream."""
import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import catalog
from common import NAN, arr, close, has_nan, history, long_case, long_data, long_events, long_holding, matrix, mixed_gap, scale_of, Via, via
from drivers import nondivergent
from harness import Registry
from run import cached, first, fx_scan, hk_scan, key, rest, to_np

R = Registry(
    "C23",
    rule="the history holds a gap, an unfilled window, an event or a non-default option that shows in the stream",
    assumptions=[
        "both streams start from the empty state and consume every observation once (Flax's init consumes "
        "the first one, so its output is taken as the first of the stream)",
        "modules whose two versions have different documented interfaces (GymFeedback, SNARIMAX, "
        "UpdateOnEvent, VMap, FuncOptimizer, UpdateParams) are judged by their own properties",
        "MaskStd and MaskNormalize regularise with different constants: compared well away from zero",
        "EWMCov is compared with explicit min_periods where an initial value is given (its default differs)",
    ],
)

SMOOTH = ["ewma", "ewmvar", "ewmcov", "buffer", "lag", "diff", "rolling", "ffill", "fill"]


def pair(ops, x64):
    """-> run(x) -> (haiku outputs, flax outputs)"""
    a, b = hk_scan(catalog.hk_program(ops)), fx_scan(lambda: catalog.fx_program(ops))

    def run(*xs):
        with jax.enable_x64(x64):
            return to_np(a(*xs)[0]), to_np(b(*xs)[0])

    return run


pairs = cached(pair)


def compare(h, f, x, x64, what, factor=1.0):
    lh, lf = jax.tree_util.tree_leaves(h), jax.tree_util.tree_leaves(f)
    assert len(lh) == len(lf), f"{what}: {len(lh)} haiku streams, {len(lf)} flax streams"
    s = scale_of(x) * factor
    for i, (u, v) in enumerate(zip(lh, lf)):
        assert u.shape == v.shape, f"{what}: haiku shape {u.shape}, flax shape {v.shape}"
        assert u.dtype.kind == v.dtype.kind, f"{what}: haiku dtype {u.dtype}, flax dtype {v.dtype}"
        tol = (1e-9 if x64 else 2e-5) * s * s
        close(v, u, 1e-9 if x64 else 1e-4, tol, f"{what} (haiku expected, flax got), stream {i}")


first_op = catalog.op(hk=False)
chain = st.one_of(
    first_op.map(lambda o: [o]),
    first_op.map(lambda o: [o]),
    st.tuples(first_op, catalog.op(SMOOTH, hk=False)).map(list),
)


@R.facet(
    "programs",
    st.fixed_dictionaries({"ops": chain, "x": history(3), "x64": st.sampled_from([True, True, False])}),
    quick=150,
    thorough=4000,
    weight=2,
    secs=60,
)
def _(c):
    x = arr(c["x"], np.float64 if c["x64"] else np.float32)
    h, f = pairs(c["ops"], c["x64"])(x)
    if not nondivergent(h["outs"]) or (len(c["ops"]) > 1 and not c["x64"]):
        # a chain in single precision amplifies the rounding of its first op without bound
        assert jax.tree_util.tree_structure(h) == jax.tree_util.tree_structure(f)
        return None
    compare(h, f, x, c["x64"], f"{c['ops']}", 1000.0 if len(c["ops"]) > 1 else 1.0)
    return "gap" if mixed_gap(x) else ("missing" if has_nan(x.tolist()) else None)


# ------------------------------------------------ subsets of options, observation shapes


def module(lib, name, opts):
    if lib == "haiku":
        import wax.modules as m
        from wax.modules.counter import Counter
    else:
        import wax.flax.modules as m

        Counter, m = via(m.Counter), Via(m)
    o = {k: (jnp.nan if v == "nan" else v) for k, v in opts.items()}
    make = {
        "ewma": lambda: m.EWMA(**o),
        "ewmvar": lambda: m.EWMVar(**o),
        "ewmcov": lambda: m.EWMCov(**o),
        "buffer": lambda: m.Buffer(**o),
        "lag": lambda: m.Lag(**o),
        "diff": lambda: m.Diff(**o),
        "pct": lambda: m.PctChange(**o),
        "rolling": lambda: m.RollingMean(**o),
        "ffill": lambda: m.Ffill(**o),
        "fill": lambda: m.FillNanInf(**o),
        "changed": lambda: m.HasChanged(**o),
        "counter": lambda: Counter(),
        "ohlc": lambda: m.OHLC(),
    }[name]
    return make()


def fields(y):
    return tuple(y) if hasattr(y, "_fields") else y


def build_module(name, opts, n_args, x64):
    import flax.linen as nn

    class M(nn.Module):
        @nn.compact
        def __call__(self, *a):
            return fields(module("flax", name, opts)(*a))

    def h_fun(*a):
        if name == "ohlc":
            return fields(module("haiku", name, opts)(a[0], reset_on=a[1]))
        return fields(module("haiku", name, opts)(*a))

    a, b = hk_scan(h_fun), fx_scan(M)

    def run(*xs):
        with jax.enable_x64(x64):
            return to_np(a(*xs)[0]), to_np(b(*xs)[0])

    return run


modules = cached(build_module)


def optional(required=None, **opt):
    return st.fixed_dictionaries(required or {}, optional=opt)


DECAY = st.sampled_from([{"alpha": a} for a in (0.5, 0.1, 0.9, 1 / 3)] + [{"com": c} for c in (0.5, 2.0, 10.0)])
ADJ = st.sampled_from([True, False, "linear"])
INIT = st.sampled_from(["nan", 0.0, 1.5, -2.0])


def merged(a, b):
    return st.tuples(a, b).map(lambda t: {**t[0], **t[1]})


FILL = st.sampled_from(["nan", 0.0, -7.0])
OPTIONS = {
    "ewma": merged(
        DECAY,
        optional(
            adjust=ADJ, ignore_na=st.booleans(), min_periods=st.integers(0, 4), initial_value=INIT, return_info=st.booleans()
        ),
    ),
    "ewmvar": merged(DECAY, optional(adjust=ADJ)),
    "ewmcov": st.one_of(
        merged(
            DECAY,
            optional(adjust=ADJ, ignore_na=st.booleans(), min_periods=st.integers(0, 3), assume_centered=st.booleans()),
        ),
        merged(
            DECAY,
            optional(
                {"min_periods": st.integers(0, 3), "initial_value": st.sampled_from([0.0, 1.5])},
                adjust=ADJ,
                ignore_na=st.booleans(),
                assume_centered=st.booleans(),
            ),
        ),
    ),
    "buffer": optional({"maxlen": st.integers(1, 6)}, fill_value=FILL, return_state=st.booleans()),
    "lag": optional({"lag": st.integers(1, 5)}, fill_value=FILL, return_state=st.booleans()),
    "diff": st.just({}),
    "pct": optional(
        periods=st.just(1),
        fill_method=st.sampled_from(["ffill", "pad"]),
        fillna_zero=st.booleans(),
    ),
    "rolling": optional({"horizon": st.integers(1, 6)}, min_periods=st.integers(1, 4)),
    "ffill": optional(periods=st.just(1)),
    "fill": optional(fill_value=st.sampled_from([0.0, -1.0, 3.5])),
    "changed": st.just({}),
    "ohlc": st.just({}),
}
SHAPED = [[], [3], [2, 2]]


@st.composite
def module_case(draw):
    name = draw(st.sampled_from(sorted(OPTIONS) + ["ewma", "ewmcov", "pct", "rolling"]))
    opts = draw(OPTIONS[name])
    shape = draw(st.sampled_from(SHAPED))
    if name == "ewmcov":
        shape = draw(st.sampled_from([[], [3]]))
    T = draw(st.sampled_from([3, 10, 30]))
    n = int(np.prod(shape))
    x = draw(matrix(T, n))
    case = {"name": name, "opts": opts, "shape": shape, "x": x}
    if name == "ewmcov" and draw(st.booleans()):
        case["y"] = draw(matrix(T, draw(st.sampled_from([n, 2])) if shape else 1))
    if name == "ohlc":
        case["reset"] = [draw(st.sampled_from([False, False, True])) for _ in range(T)]
    return case


@R.facet("modules", module_case(), quick=250, thorough=6000, weight=2, secs=60)
def _(c):
    x = np.array(c["x"], np.float64).reshape([len(c["x"])] + c["shape"])
    args = [x]
    if c["name"] == "ewmcov":
        args.append(x if "y" not in c else np.array(c["y"], np.float64).reshape([len(x)] + ([-1] if c["shape"] else [])))
    if c["name"] == "ohlc":
        args.append(np.array(c["reset"]))
    h, f = modules(c["name"], c["opts"], len(args), True)(*args)
    assert type(h) is type(f) and (not isinstance(h, tuple) or len(h) == len(f)), f"{type(h)} against {type(f)}"
    if c["opts"].get("return_state"):
        # the two buffer states are laid out differently: the outputs are what is promised
        h, f = h[0], f[0]
    if c["opts"].get("return_info"):
        assert sorted(h[1]) == sorted(f[1]), f"info {sorted(h[1])} against {sorted(f[1])}"
    compare(h, f, x, True, f"{c['name']} {c['opts']}")
    if c["opts"] or c["name"] == "ohlc" and any(c["reset"]):
        return "gaps or events with explicit options" if has_nan(c["x"]) or c.get("reset") else "explicit options"
    return "gap" if mixed_gap(np.array(c["x"], np.float64)) else None


@st.composite
def long_module(draw):
    name = draw(st.sampled_from(sorted(OPTIONS)))
    return {
        "name": name,
        "opts": draw(LONG[name] if name in LONG else OPTIONS[name]),
        "d": draw(long_case(lengths=(300, 700), columns=(3,) if name == "ewmcov" else (1, 3, 20), scales=(1,))),
    }


LONG = {
    "buffer": optional({"maxlen": st.sampled_from([12, 64, 130])}, fill_value=FILL),
    "lag": optional({"lag": st.sampled_from([12, 64, 130])}, fill_value=FILL),
    "rolling": optional({"horizon": st.sampled_from([12, 64, 130])}, min_periods=st.sampled_from([1, 5, 12])),
}


@R.facet("long_modules", long_module(), quick=40, thorough=1500, weight=2, secs=60)
def _(c):
    """hundreds of steps, wide observations, long windows, rare events"""
    x = long_data(c["d"]) if c["name"] != "changed" else long_holding(c["d"]).astype(np.float64)
    args = [x] + ([x] if c["name"] == "ewmcov" else [long_events(c["d"])] if c["name"] == "ohlc" else [])
    h, f = modules(c["name"], c["opts"], len(args), True)(*args)
    if c["opts"].get("return_state"):
        h, f = h[0], f[0]
    if c["opts"].get("return_info"):
        assert sorted(h[1]) == sorted(f[1]), f"info {sorted(h[1])} against {sorted(f[1])}"
    compare(h, f, x, True, f"{c['name']} {c['opts']}", 10.0)
    return "hundreds of steps"


# ------------------------------------------------ integer observations


@R.facet(
    "integers",
    st.fixed_dictionaries(
        {
            "name": st.sampled_from(["buffer", "lag", "diff", "changed", "ffill"]),
            "k": st.integers(1, 4),
            "fill": st.sampled_from([0, -7]),
            "x": st.lists(st.lists(st.integers(-3, 3), min_size=2, max_size=2), min_size=8, max_size=8),
        }
    ),
    quick=60,
    thorough=1500,
    weight=0.7,
    secs=30,
)
def _(c):
    opts = {"buffer": {"maxlen": c["k"], "fill_value": c["fill"]}, "lag": {"lag": c["k"], "fill_value": c["fill"]}}.get(
        c["name"], {}
    )
    x = np.array(c["x"], np.int32)
    h, f = modules(c["name"], opts, 1, False)(x)
    assert h.shape == f.shape and h.dtype == f.dtype, f"{c['name']}: haiku {h.dtype}{h.shape}, flax {f.dtype}{f.shape}"
    assert np.array_equal(h, f, equal_nan=h.dtype.kind == "f"), f"{c['name']}: haiku {h.tolist()} flax {f.tolist()}"
    return "changes" if (np.diff(x, axis=0) != 0).any() else None


# ------------------------------------------------ masks


def build_mask(name, axis, extra):
    from wax.flax.modules import ApplyMask as FA, MaskMean as FM, MaskNormalize as FN, MaskStd as FS
    from wax.modules.apply_mask import ApplyMask
    from wax.modules.mask_mean import MaskMean
    from wax.modules.mask_normalize import MaskNormalize
    from wax.modules.mask_std import MaskStd

    H, F = {"apply": (ApplyMask, FA), "mean": (MaskMean, FM), "std": (MaskStd, FS), "norm": (MaskNormalize, FN)}[name]
    F = via(F)
    o = {"axis": axis}
    if name == "apply":
        o["mask_value"] = extra
    elif name != "mean":
        o["assume_centered"] = extra
    f = hk.transform(lambda m, x: H(**o)(m, x))
    g = F(**o)

    @jax.jit
    def run(m, x):
        return f.apply(f.init(key(), m, x), key(), m, x), g.init_with_output(key(), m, x)[0]

    def call(m, x):
        with jax.enable_x64(True):
            return to_np(run(m, x))

    return call


masks = cached(build_mask)


@st.composite
def mask_case(draw):
    name = draw(st.sampled_from(["apply", "mean", "std", "norm"]))
    shape = draw(st.sampled_from([[4, 3], [3, 4], [3, 3], [1, 4], [4, 1]]))
    return {
        "name": name,
        "axis": draw(st.sampled_from([None, 0, 1])),
        "extra": draw(st.sampled_from([0.0, -5.0])) if name == "apply" else (draw(st.booleans()) if name != "mean" else None),
        "x": draw(matrix(*shape)),
        "mask": [[draw(st.booleans()) for _ in range(shape[1])] for _ in range(shape[0])],
    }


@R.facet("masks", mask_case(), quick=250, thorough=6000, weight=1, secs=40)
def _(c):
    x, m = np.array(c["x"], np.float64), np.array(c["mask"])
    axis = c["axis"]
    run = masks(c["name"], axis, c["extra"])
    if c["name"] == "apply":
        mm = m if axis is None else (m[:, 0] if axis == 0 else m[0])
        h, f = run(mm, x)
        close(f, h, 0, 0, "apply mask")
        return "partly masked" if mm.any() and not mm.all() else None
    h, f = run(m, x)
    if c["name"] == "mean":
        close(f, h, 1e-12, 1e-12, "mask mean")
        return "partly masked" if m.any() and not m.all() else None
    # deviations well away from zero, several selected entries
    v = np.nan_to_num(x)
    red = None if axis is None else axis
    cnt = m.sum(axis=red, keepdims=True)
    mean = np.where(m, v, 0).sum(axis=red, keepdims=True) / np.maximum(cnt, 1)
    dev = np.sqrt((np.where(m, v - (0 if c["extra"] else mean), 0) ** 2).sum(axis=red, keepdims=True) / np.maximum(cnt, 1))
    good = (cnt > 1) & (dev > 0.05)
    good = np.broadcast_to(good, x.shape) & m if c["name"] == "norm" else np.squeeze(good, axis=red) if red is not None else good.reshape(())
    assert h.shape == f.shape, f"shapes {h.shape} {f.shape}"
    close(f[good], h[good], 1e-6, 1e-6, c["name"])
    return "partly masked" if np.any(good) and not m.all() else None


# ------------------------------------------------ ARMA


def build_arma(p, q, n):
    from wax.flax.modules import ARMA as F
    from wax.flax.modules.arma import create_arma
    from wax.modules.arma import ARMA as H
    import flax.linen as nn

    def run(a, b, x):
        def h(e):
            return H(a, b)(e)

        class M(nn.Module):
            @nn.compact
            def __call__(self, e):
                return (F if p % 2 else create_arma)(a, b)(e)

        return hk_scan(h)(x)[0], fx_scan(M)(x)[0]

    run = jax.jit(run)

    def call(*args):
        with jax.enable_x64(True):
            return to_np(run(*args))

    return call


armas = cached(build_arma)


@st.composite
def arma_case(draw):
    p, q, n = draw(st.integers(1, 4)), draw(st.integers(1, 4)), draw(st.sampled_from([0, 2]))
    co = st.integers(-6, 6).map(lambda v: v / 8)
    return {
        "a": [draw(co) / p for _ in range(p)],
        "b": [draw(co) for _ in range(q)],
        "n": n,
        "x": draw(matrix(12, n or 1, nan=draw(st.booleans()))),
    }


@R.facet("arma", arma_case(), quick=60, thorough=2000, weight=1, secs=40)
def _(c):
    x = np.array(c["x"], np.float64)
    if not c["n"]:
        x = x[:, 0]
    h, f = armas(len(c["a"]), len(c["b"]), c["n"])(np.array(c["a"]), np.array(c["b"]), x)
    close(f, h, 1e-9, 1e-9, f"ARMA {c['a']} {c['b']} (haiku expected, flax got)")
    return "orders differ" if len(c["a"]) != len(c["b"]) else ("gap" if np.isnan(x).any() else "order > 1" if len(c["a"]) > 1 else None)


# ------------------------------------------------ optimizers

OPTS = {
    "sgd": lambda o: o.sgd(0.1),
    "momentum": lambda o: o.sgd(0.05, momentum=0.9),
    "adam": lambda o: o.adam(0.05),
    "adagrad": lambda o: o.adagrad(0.1),
    "decay": lambda o: o.adamw(0.05, weight_decay=0.1),
    "schedule": lambda o: o.sgd(o.exponential_decay(0.2, 3, 0.5)),
    "clip": lambda o: o.chain(o.clip(0.5), o.sgd(0.1)),
}


def build_optax(name):
    import optax

    from wax.flax.modules import OptaxOptimizer as F
    from wax.modules.optax_optimizer import OptaxOptimizer as H
    import flax.linen as nn

    def h(g):
        p = hk.get_state("p", [3], init=lambda s, d: jnp.array([1.0, -2.0, 0.5]))
        p2 = H(OPTS[name](optax))({"w": p}, {"w": g})["w"]
        hk.set_state("p", p2)
        return p2

    class M(nn.Module):
        @nn.compact
        def __call__(self, g):
            p = self.variable("state", "p", lambda: jnp.array([1.0, -2.0, 0.5]))
            new, _ = F(OPTS[name](optax))({"w": p.value}, {"w": g})
            p.value = new["w"]
            return new["w"]

    a, b = hk_scan(h), fx_scan(M)

    def call(x):
        with jax.enable_x64(True):
            return to_np(a(x)[0]), to_np(b(x)[0])

    return call


optaxes = cached(build_optax)


@R.facet(
    "optimizer",
    st.fixed_dictionaries(
        {"opt": st.sampled_from(sorted(OPTS)), "g": st.sampled_from([4, 10]).flatmap(lambda T: matrix(T, 3, nan=False))}
    ),
    quick=60,
    thorough=2000,
    weight=0.7,
    secs=30,
)
def _(c):
    g = np.array(c["g"], np.float64)
    h, f = optaxes(c["opt"])(g)
    close(f, h, 1e-8, 1e-8, f"{c['opt']} (haiku expected, flax got)")
    return "several non-zero steps" if (np.abs(g).sum(1) > 0).sum() > 1 else None


# ------------------------------------------------ online learning


def build_learner(opt):
    import flax.linen as nn
    import optax

    from wax.flax.modules.online_supervised_learner import OnlineSupervisedLearner as F
    from wax.modules import OnlineSupervisedLearner as H

    w0, b0 = [0.5, -0.25], 0.1

    def h_model(u):
        w = hk.get_parameter("w", [2], u.dtype, init=lambda s, d: jnp.array(w0, d))
        return jnp.dot(w, u) + hk.get_parameter("b", [], u.dtype, init=lambda s, d: jnp.array(b0, d))

    class Linear(nn.Module):
        @nn.compact
        def __call__(self, u):
            w = self.param("w", lambda k: jnp.array(w0, u.dtype))
            return jnp.dot(w, u) + self.param("b", lambda k: jnp.array(b0, u.dtype))

    def h(x):
        y, info = H(h_model, OPTS[opt](optax), lambda y, p: (y - p) ** 2)(x[:2], x[2])
        return y, info.loss

    class M(nn.Module):
        @nn.compact
        def __call__(self, x):
            y, info = F(model=Linear(), opt=OPTS[opt](optax), loss_fn=lambda p, y: (y - p) ** 2)(x[:2], x[2])
            return y, info["loss"]

    a, b = hk_scan(h), fx_scan(M)

    def call(x):
        with jax.enable_x64(True):
            return to_np(a(x)[0]), to_np(b(x)[0])

    return call


learners = cached(build_learner)


@R.facet(
    "learner",
    st.fixed_dictionaries(
        {
            "opt": st.sampled_from(sorted(OPTS)),
            "x": st.sampled_from([3, 10]).flatmap(lambda T: matrix(T, 3, nan=False)),
        }
    ),
    quick=40,
    thorough=1000,
    weight=1,
    secs=40,
)
def _(c):
    x = np.array(c["x"], np.float64) / 10
    (hy, hl), (fy, fl) = learners(c["opt"])(x)
    if not nondivergent((hy, hl)):
        return None
    close(fy, hy, 1e-6, 1e-6, "predictions (haiku expected, flax got)")
    close(fl, hl, 1e-6, 1e-6, "losses (haiku expected, flax got)")
    return "several different samples" if len({tuple(r) for r in c["x"]}) > 1 else None


# ------------------------------------------------ the library's own unrolling


@R.probe("flax-unroll-first-observation")
def _():
    """flax_unroll feeds the first observation twice: once to initialise and once to run"""
    import wax.flax.modules as fm
    import wax.modules as m
    from wax.flax.core.unroll import flax_unroll
    from wax.unroll import unroll

    x = np.array([1.0, 2.0, 4.0], np.float32)
    h = np.asarray(unroll(lambda v: m.EWMA(com=2.0)(v))(x))
    f = np.asarray(flax_unroll(fm.EWMA(com=2.0), rng=key())(x))
    close(f, h, 1e-5, 1e-5, "EWMA by flax_unroll (haiku expected, flax got)")
