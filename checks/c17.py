"""C17: online learners against the plain gradient loop."""
import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np
import optax
from hypothesis import strategies as st
from jax import lax

from common import arr, close, matrix, tree_close, via
from harness import Registry
from run import cached, first, hk_scan, key, rest, to_np

R = Registry(
    "C17",
    rule="at least two updates moved a trainable parameter, or a missing gradient occurred at a step between moving ones",
    assumptions=[
        "parameters initialised by constants; the optimiser is any optax transformation applied outside wax by optax.apply_updates",
        "the second backend takes its first optimiser step when it is initialised (documented by its tests)",
        "learning rates small enough that the trajectory does not diverge",
    ],
)

OPTS = {
    "sgd": lambda: optax.sgd(0.05),
    "momentum": lambda: optax.sgd(0.03, momentum=0.9),
    "nesterov": lambda: optax.sgd(0.03, momentum=0.5, nesterov=True),
    "adam": lambda: optax.adam(0.05),
    "adamw": lambda: optax.adamw(0.05, weight_decay=0.1),
    "rmsprop": lambda: optax.rmsprop(0.02),
    "adagrad": lambda: optax.adagrad(0.1),
    "schedule": lambda: optax.sgd(optax.exponential_decay(0.1, 2, 0.7)),
    "clip": lambda: optax.chain(optax.clip_by_global_norm(0.5), optax.sgd(0.1)),
    "newton": lambda: __import__("wax.optim.newton", fromlist=["newton"]).newton(0.3, eps=2.0),
    "multisteps": lambda: optax.MultiSteps(optax.sgd(0.1), 3).gradient_transformation(),
    "decay": lambda: optax.chain(optax.add_decayed_weights(0.3), optax.sgd(0.05)),
}


def _linear(x, out=None, name=None):
    return hk.Linear(1, w_init=hk.initializers.Constant(0.5), name=name)(x)[0]


def m_linear(x):
    return _linear(x)


def m_deep(x):
    h = jnp.tanh(hk.Linear(2, w_init=hk.initializers.Constant(0.3), b_init=hk.initializers.Constant(0.1), name="inner")(x))
    return _linear(h, name="outer")


def m_state(x):
    from wax.modules import EWMA

    h = EWMA(com=3.0, name="average")(x)
    return _linear(h, name="outer")


def m_lag(x):
    from wax.modules import Buffer

    w = hk.get_parameter("w", [2], init=hk.initializers.Constant(0.4))
    b = hk.get_parameter("b", [], init=jnp.zeros)
    h = Buffer(2, fill_value=0.0)(jnp.nan_to_num(x[0]))
    return h @ w + b * x[1]


MODELS = {"linear": m_linear, "deep": m_deep, "state": m_state, "lag": m_lag}
PRED = {
    "all": lambda m, n, p: True,
    "w": lambda m, n, p: n == "w",
    "b": lambda m, n, p: n == "b",
    "outer": lambda m, n, p: "outer" in m,
    "none": lambda m, n, p: False,
}
LOSS = {
    "square": lambda y, p: (y - p) ** 2,
    "huber": lambda y, p: optax.losses.huber_loss(p, y, 1.0),
}


def with_loss(model, loss):
    def f(x, y):
        p = MODELS[model](x)
        return LOSS[loss](y, p), {"pred": p}

    return f


def partition(pred, params):
    yes = {m: {n: v for n, v in d.items() if PRED[pred](m, n, v)} for m, d in params.items()}
    no = {m: {n: v for n, v in d.items() if not PRED[pred](m, n, v)} for m, d in params.items()}
    return {m: d for m, d in yes.items() if d}, {m: d for m, d in no.items() if d}


def join(a, b):
    return {m: {**a.get(m, {}), **b.get(m, {})} for m in {**a, **b}}


def reg(train):
    return 0.1 * sum(jnp.sum(v**2) for v in jax.tree_util.tree_leaves(train))


def plain_loop(f, opt, pred, fill, regularise=False, clip=None):
    """f(x, y) -> (loss, aux) haiku-impure; the textbook loop."""
    f = hk.transform_with_state(f)
    fills = {
        "nan": lambda g: jnp.where(jnp.isnan(g), 0.0, g),
        "naninf": lambda g: jnp.where(jnp.isfinite(g), g, 0.0),
        None: lambda g: g,
    }
    fill = fills[fill]

    @jax.jit
    def run(x, y):
        params, state = f.init(key(), x[0], y[0])
        train, fixed = partition(pred, params)
        o = opt.init(train)

        def step(carry, xy):
            train, o, state = carry

            def loss_fn(train):
                (loss, aux), s = f.apply(join(train, fixed), state, None, *xy)
                return loss + (reg(train) if regularise else 0.0), (aux, s)

            (loss, (aux, state)), g = jax.value_and_grad(loss_fn, has_aux=True)(train)
            g = jax.tree_util.tree_map(fill, g)
            up, o = opt.update(g, o, train)
            new = optax.apply_updates(train, up)
            if clip is not None:
                new = jax.tree_util.tree_map(lambda v: jnp.clip(v, -clip, clip), new)
            return (new, o, state), (loss, aux, new, join(new, fixed))

        _, out = lax.scan(step, (train, o, state), (x, y))
        return out + (params,)

    return run


def moved(trajectory, start):
    """number of steps that moved the trainable parameters"""
    a = [np.concatenate([np.asarray(s)[None], np.asarray(t)]).reshape(len(t) + 1, -1)
         for s, t in zip(jax.tree_util.tree_leaves(start), jax.tree_util.tree_leaves(trajectory))]
    if not a:
        return np.zeros(0, bool)
    a = np.concatenate(a, axis=1)
    return (np.abs(np.diff(a, axis=0)) > 0).any(axis=1)


def why(train, params, y):
    start = {m: {n: params[m][n] for n in d} for m, d in train.items()}
    mv = moved(train, start)
    if mv.sum() < 2:
        return None
    gap = np.isnan(y)
    return "missing targets inside the run" if gap[1:-1].any() else "parameters moved"


def build_online(model, opt, pred, loss, clip, regularise, form):
    from wax.modules import OnlineOptimizer
    from wax.modules.optax_optimizer import OptaxOptimizer

    f = with_loss(model, loss)

    def fun(x, y):
        kw = {}
        if clip is not None:
            kw["project_params"] = lambda p, o=None: jax.tree_util.tree_map(lambda v: jnp.clip(v, -clip, clip), p)
        if regularise:
            kw["regularize_loss"] = reg
        if pred != "all":
            kw["params_predicate"] = PRED[pred]
        return OnlineOptimizer(
            hk.transform_with_state(f) if form == "transformed" else f,
            OptaxOptimizer(OPTS[opt]()) if form == "wrapped" else OPTS[opt](),
            return_params=True,
            **kw,
        )(x, y)

    return hk_scan(fun), plain_loop(f, OPTS[opt](), pred, "nan", regularise, clip)


def build_func(model, opt, pred, loss, fill, aux):
    from wax.modules.func_optimizer import FuncOptimizer
    from wax.modules.optax_optimizer import OptaxOptimizer

    g = with_loss(model, loss)

    def fun(x, y):
        kw = {} if pred == "all" else {"params_predicate": PRED[pred]}
        h = g if aux else (lambda x, y: g(x, y)[0])
        res, params = FuncOptimizer(h, OptaxOptimizer(OPTS[opt]()), has_aux=aux, grads_fill_nan_inf=fill, **kw)(x, y)
        return (res if aux else (res, ())), params

    return hk_scan(fun), plain_loop(g, OPTS[opt](), pred, "naninf" if fill else None)


def build_supervised(model, opt, loss):
    from wax.modules import OnlineSupervisedLearner

    def fun(x, y):
        return OnlineSupervisedLearner(MODELS[model], OPTS[opt](), LOSS[loss])(x, y)

    return hk_scan(fun), plain_loop(with_loss(model, loss), OPTS[opt](), "all", "naninf")


online = cached(build_online, maxsize=64)
func = cached(build_func, maxsize=64)
supervised = cached(build_supervised, maxsize=64)


@st.composite
def data(draw, nan=True):
    T = draw(st.sampled_from([3, 8, 8, 8, 20]))
    x = draw(matrix(T, 3, nan=False))
    y = draw(matrix(T, 1, nan=nan))
    s = draw(st.sampled_from([0.05, 0.1, 0.2]))
    holes = draw(st.lists(st.integers(0, T - 1), max_size=2)) if nan else []
    X = [[v * s for v in r] for r in x]
    for t in holes:
        X[t] = [v if draw(st.booleans()) else float("nan") for v in X[t]]
    return {"x": X, "y": [r[0] * s for r in y]}


def cfg(**kw):
    return st.fixed_dictionaries(kw)


MODEL = st.sampled_from(sorted(MODELS))
OPT = st.sampled_from(sorted(OPTS))
LOSSES = st.sampled_from(["square", "square", "huber"])
PREDS = st.sampled_from(["all", "all", "w", "b", "outer", "none"])
TOL = dict(rtol=2e-4, atol=2e-5)


def load(c):
    return arr(c["data"]["x"]), arr(c["data"]["y"])


def stable(tree):
    return all(np.abs(np.nan_to_num(v)).max(initial=0) < 1e4 for v in jax.tree_util.tree_leaves(tree))


@R.facet(
    "online_optimizer",
    cfg(model=MODEL, opt=OPT, pred=PREDS, loss=LOSSES, clip=st.sampled_from([None, None, 0.45, 0.05]),
        reg=st.booleans(), form=st.sampled_from(["function", "transformed", "wrapped"]), data=data()),
    quick=200, thorough=6000, weight=4, secs=90,
)
def _(c):
    x, y = load(c)
    run, ref = online(c["model"], c["opt"], c["pred"], c["loss"], c["clip"], c["reg"], c["form"])
    out = to_np(run(x, y)[0])
    loss, aux, train, params, start = to_np(ref(x, y))
    if not stable(params):
        return None
    close(out.loss, loss, what="loss", **TOL)
    tree_close(out.model_info, aux, what="model info", **TOL)
    tree_close(plain(out.params), params, what="parameters", **TOL)
    return why(train, start, y)


def plain(p):
    return {k: plain(v) for k, v in p.items()} if hasattr(p, "items") else p


@R.facet(
    "func_optimizer",
    cfg(model=MODEL, opt=OPT, pred=PREDS, loss=LOSSES, fill=st.booleans(), aux=st.booleans(), data=data()),
    quick=160, thorough=6000, weight=3, secs=90,
)
def _(c):
    x, y = load(c)
    run, ref = func(c["model"], c["opt"], c["pred"], c["loss"], c["fill"], c["aux"])
    (loss_, aux_), params_ = to_np(run(x, y)[0])
    loss, aux, train, params, start = to_np(ref(x, y))
    if not stable(params):
        return None
    close(loss_, loss, what="loss", **TOL)
    if c["aux"]:
        tree_close(aux_, aux, what="aux", **TOL)
    tree_close(plain(params_), train, what="trainable parameters", **TOL)
    return why(train, start, y)


@R.facet("supervised", cfg(model=MODEL, opt=OPT, loss=LOSSES, data=data()), quick=120, thorough=4000, weight=3, secs=90)
def _(c):
    x, y = load(c)
    run, ref = supervised(c["model"], c["opt"], c["loss"])
    pred, info = to_np(run(x, y)[0])
    loss, aux, train, params, start = to_np(ref(x, y))
    if not stable(params):
        return None
    close(pred, aux["pred"], what="prediction", **TOL)
    close(info.loss, loss, what="loss", **TOL)
    tree_close(plain(info.params), params, what="parameters", **TOL)
    return why(train, start, y)


# ------------------------------------------------------------------ bare optimiser module


def build_bare(opt, backend):
    o = OPTS[opt]()

    def start():
        return {"a": jnp.array([0.5, -0.25, 1.0]), "b": {"c": jnp.array(0.1)}}

    @jax.jit
    def ref(ga, gc):
        p = start()
        s = o.init(p)

        def step(carry, g):
            p, s = carry
            up, s = o.update({"a": g[0], "b": {"c": g[1]}}, s, p)
            p = optax.apply_updates(p, up)
            return (p, s), p

        return lax.scan(step, (p, s), (ga, gc))[1]

    if backend == "haiku":
        from wax.modules.optax_optimizer import OptaxOptimizer

        def fun(ga, gc):
            p = hk.get_state("p", [], init=lambda *_: start())
            p = OptaxOptimizer(o)(p, {"a": ga, "b": {"c": gc}})
            hk.set_state("p", p)
            return p

        r = hk_scan(fun)
        return (lambda ga, gc: r(ga, gc)[0]), ref
    from wax.flax.modules.optax_optimizer import OptaxOptimizer as Fx

    m = Fx(o)

    @jax.jit
    def run(ga, gc):
        p = start()
        (p, _), var = m.init_with_output(key(), p, {"a": ga[0], "b": {"c": gc[0]}})

        def step(carry, g):
            p, var = carry
            (p, info), var = m.apply(var, p, {"a": g[0], "b": {"c": g[1]}}, mutable=True)
            return (p, dict(var)), p

        _, ps = lax.scan(step, (p, dict(var)), (ga[1:], gc[1:]))
        return jax.tree_util.tree_map(lambda a, b: jnp.concatenate([a[None], b]), p, ps)

    return run, ref


bare = cached(build_bare, maxsize=64)


@R.facet("optimizer_module", cfg(opt=OPT, backend=st.sampled_from(["haiku", "flax"]), g=matrix(8, 4, nan=False)),
         quick=80, thorough=2000, weight=1)
def _(c):
    g = arr(c["g"]) * 0.2
    run, ref = bare(c["opt"], c["backend"])
    a, b = to_np(run(g[:, :3], g[:, 3])), to_np(ref(g[:, :3], g[:, 3]))
    tree_close(a, b, what="parameters", **TOL)
    return "moving" if np.count_nonzero(np.abs(np.diff(b["a"], axis=0)).max(1)) >= 2 else None


# ------------------------------------------------------------------ second backend


def fx_models():
    import flax.linen as nn

    from wax.flax.modules import EWMA, Buffer

    const = nn.initializers.constant

    class Linear(nn.Module):
        @nn.compact
        def __call__(self, x):
            return nn.Dense(1, kernel_init=const(0.5), name="linear")(x)[0]

    class Deep(nn.Module):
        @nn.compact
        def __call__(self, x):
            h = jnp.tanh(nn.Dense(2, kernel_init=const(0.3), bias_init=const(0.1), name="inner")(x))
            return nn.Dense(1, kernel_init=const(0.5), name="outer")(h)[0]

    class State(nn.Module):
        @nn.compact
        def __call__(self, x):
            h = EWMA(com=3.0, name="average")(x)
            return nn.Dense(1, kernel_init=const(0.5), name="outer")(h)[0]

    class Lag(nn.Module):
        @nn.compact
        def __call__(self, x):
            w = self.param("kernel", const(0.4), (2,))
            b = self.param("bias", const(0.0), ())
            h = Buffer(2, fill_value=0.0)(jnp.nan_to_num(x[0]))
            return h @ w + b * x[1]

    return {"linear": Linear, "deep": Deep, "state": State, "lag": Lag}


FX_PRED = {
    "all": lambda m, n, p: True,
    "w": lambda m, n, p: n == "kernel",
    "b": lambda m, n, p: n == "bias",
    "outer": lambda m, n, p: "outer" in m,
    "none": lambda m, n, p: False,
}


def fx_loss_module(model, loss):
    import flax.linen as nn

    inner = fx_models()[model]

    class Loss(inner):
        @nn.compact
        def __call__(self, x, y):
            p = super().__call__(x)
            return LOSS[loss](y, p), {"pred": p}

    return Loss()


def fx_plain(m, opt, pred, fill, regularise, clip):
    """textbook loop over a flax module m(x, y) -> (loss, aux), every observation used once."""
    from flax.traverse_util import flatten_dict, unflatten_dict

    fill = {"nan": lambda g: jnp.where(jnp.isnan(g), 0.0, g), "naninf": lambda g: jnp.where(jnp.isfinite(g), g, 0.0)}[fill]

    @jax.jit
    def run(x, y):
        # models are initialised by an evaluation at the first observation
        var = dict(m.init(jax.random.PRNGKey(0), x[0], y[0]))
        flat = flatten_dict(var.pop("params"))
        train = {k: v for k, v in flat.items() if FX_PRED[pred](k[0], k[-1], v)}
        fixed = {k: v for k, v in flat.items() if k not in train}
        o = opt.init(train)

        def step(carry, xy):
            train, o, state = carry

            def loss_fn(train):
                (loss, aux), s = m.apply({"params": unflatten_dict({**train, **fixed}), **state}, *xy, mutable=list(state))
                return loss + (reg(train) if regularise else 0.0), (aux, dict(s))

            (loss, (aux, state)), g = jax.value_and_grad(loss_fn, has_aux=True)(train)
            g = jax.tree_util.tree_map(fill, g)
            up, o = opt.update(g, o, train)
            new = optax.apply_updates(train, up)
            if clip is not None:
                new = jax.tree_util.tree_map(lambda v: jnp.clip(v, -clip, clip), new)
            return (new, o, state), (loss, aux, unflatten_dict(g), new, unflatten_dict({**new, **fixed}))

        _, out = lax.scan(step, (train, o, var), (x, y))
        return out + (flat,)

    return run


def fx_scan_all(m):
    """initialisation takes the first observation, then all the others"""
    from run import fx_scan

    return fx_scan(lambda: m)


def build_fx(kind, model, opt, pred, loss, clip, regularise, form):
    from wax.flax.modules.func_optimizer import FuncOptimizer
    from wax.flax.modules.online_optimizer import OnlineOptimizer
    from wax.flax.modules.online_supervised_learner import OnlineSupervisedLearner, SimpleOnlineLearner
    from wax.flax.modules.optax_optimizer import OptaxOptimizer

    FuncOptimizer, OnlineOptimizer, OnlineSupervisedLearner, SimpleOnlineLearner, OptaxOptimizer = via(
        FuncOptimizer, OnlineOptimizer, OnlineSupervisedLearner, SimpleOnlineLearner, OptaxOptimizer,
        coin=(kind, model, opt, pred, loss, clip, regularise, form),
    )
    o = OPTS[opt]()
    wo = OptaxOptimizer(opt=o) if form == "wrapped" else o
    pr = None if pred == "all" else FX_PRED[pred]
    lm = fx_loss_module(model, loss)
    if kind == "online":
        kw = {}
        if clip is not None:
            kw["project_params"] = lambda p: jax.tree_util.tree_map(lambda v: jnp.clip(v, -clip, clip), p)
        if regularise:
            # receives all the parameters: penalise the trainable ones
            from flax.traverse_util import flatten_dict

            kw["regularize_loss"] = lambda l, p, aux: l + reg(
                [v for k, v in flatten_dict(p).items() if FX_PRED[pred](k[0], k[-1], v)]
            )
        m = OnlineOptimizer(model=lm, opt=wo, params_predicate=pr, **kw)
        return online_run(m), fx_plain(lm, o, pred, "nan", regularise, clip)
    if kind == "func":
        m = FuncOptimizer(fun=lm, opt=wo, has_aux=True, params_predicate=pr)
    elif kind == "supervised":
        m = OnlineSupervisedLearner(model=fx_models()[model](), loss_fn=lambda p, y: LOSS[loss](y, p), opt=wo,
                                    params_predicate=None if pred == "all" else pr)
    else:
        m = SimpleOnlineLearner(model=fx_models()[model](), loss_fn=lambda p, y: LOSS[loss](y, p), opt=wo)
    run = fx_scan_all(m)
    return run, fx_plain(lm, o, pred, "naninf", False, None)


def online_run(m):
    """OptInfo is not a pytree: turn it into a dict inside the scan"""

    @jax.jit
    def run(x, y):
        def d(i):
            return {"loss": i.loss, "aux": i.aux, "grads": i.grads, "params": i.params}

        y0, var = m.init_with_output(key(), x[0], y[0])
        y0 = d(y0)

        def step(var, xy):
            out, new = m.apply(var, *xy, mutable=True)
            return {**var, **new}, d(out)

        _, ys = lax.scan(step, dict(var), (x[1:], y[1:]))
        return jax.tree_util.tree_map(lambda a, b: jnp.concatenate([jnp.asarray(a)[None], b]), y0, ys)

    return run


fx = cached(build_fx, maxsize=64)


def fx_why(train, start, y):
    mv = moved(train, {k: start[k] for k in train})
    if mv.sum() < 2:
        return None
    return "missing targets inside the run" if np.isnan(y)[1:-1].any() else "parameters moved"


FX_CFG = dict(model=MODEL, opt=OPT, pred=PREDS, loss=LOSSES, form=st.sampled_from(["raw", "wrapped"]), data=data())


@R.facet("flax_online", cfg(clip=st.sampled_from([None, None, 0.45, 0.05]), reg=st.booleans(), **FX_CFG),
         quick=140, thorough=5000, weight=3, secs=90)
def _(c):
    x, y = load(c)
    run, ref = fx("online", c["model"], c["opt"], c["pred"], c["loss"], c["clip"], c["reg"], c["form"])
    out = to_np(run(x, y))
    loss, aux, grads, train, params, start = to_np(ref(x, y))
    if not stable(params):
        return None
    # a stateful model is initialised by an evaluation, so that its state already contains the first observation
    close(out["loss"], loss, what="loss", **TOL)
    tree_close(out["aux"], aux, what="aux", **TOL)
    tree_close(plain(out["grads"]), grads, what="gradients", **TOL)
    tree_close(plain(out["params"]), params, what="parameters", **TOL)
    return fx_why(train, start, y)


@R.facet("flax_learners", cfg(kind=st.sampled_from(["func", "supervised", "simple"]), **FX_CFG),
         quick=180, thorough=5000, weight=3, secs=90)
def _(c):
    x, y = load(c)
    pred = "all" if c["kind"] == "simple" else c["pred"]
    if c["kind"] == "supervised" and pred == "outer":
        pred = "w"  # the module names seen by the predicate are nested below the model
    run, ref = fx(c["kind"], c["model"], c["opt"], pred, c["loss"], None, False, c["form"])
    out = to_np(run(x, y)[0])
    loss, aux, grads, train, params, start = to_np(ref(x, y))
    if not stable(params):
        return None
    if c["kind"] == "func":
        (l, a), g, _ = out
        tree_close(a, aux, what="aux", **TOL)
    elif c["kind"] == "supervised":
        p, info = out
        close(p, aux["pred"], what="prediction", **TOL)
        l, g = info["loss"], info["grads"]
    else:
        p, l = out
        close(p, aux["pred"], what="prediction", **TOL)
        g = None
    close(l, loss, what="loss", **TOL)
    if g is not None:
        got = jax.tree_util.tree_leaves(g)
        want = jax.tree_util.tree_leaves(grads)
        tree_close(got, want, what="gradients", **TOL)
    return fx_why(train, start, y)


# models that return only the loss, or several further outputs


def build_returns(kind, ret, model, opt, pred, flag):
    import flax.linen as nn

    from wax.flax.modules.func_optimizer import FuncOptimizer
    from wax.flax.modules.online_optimizer import OnlineOptimizer

    FuncOptimizer, OnlineOptimizer = via(FuncOptimizer, OnlineOptimizer, coin=(kind, ret, model, opt, pred))
    inner = fx_models()[model]

    class Loss(inner):
        @nn.compact
        def __call__(self, x, y):
            p = super().__call__(x)
            loss = LOSS["square"](y, p)
            return {"loss": loss, "pair": (loss, p), "triple": (loss, p, {"twice": 2 * p}), "quad": (loss, p, y, -p)}[ret]

    o, lm = OPTS[opt](), Loss()
    pr = None if pred == "all" else FX_PRED[pred]
    ref = fx_plain(fx_loss_module(model, "square"), o, pred, "nan" if kind == "online" else "naninf", False, None)
    if kind == "online":
        return online_run(OnlineOptimizer(model=lm, opt=o, params_predicate=pr)), ref
    return fx_scan_all(FuncOptimizer(fun=lm, opt=o, has_aux=flag, params_predicate=pr)), ref


returns = cached(build_returns, maxsize=64)


@R.facet(
    "flax_returns",
    cfg(kind=st.sampled_from(["online", "func"]), ret=st.sampled_from(["loss", "pair", "triple", "quad"]), flag=st.booleans(),
        model=st.sampled_from(["linear", "state", "lag"]), opt=st.sampled_from(["sgd", "adam"]), pred=st.sampled_from(["all", "w"]), data=data()),
    quick=40, thorough=2500, weight=1, secs=60,
)
def _(c):
    x, y = load(c)
    flag = c["flag"] or c["ret"] != "loss"  # without auxiliary outputs a function returns the loss alone
    run, ref = returns(c["kind"], c["ret"], c["model"], c["opt"], c["pred"], flag)
    loss, aux, grads, train, params, start = to_np(ref(x, y))
    if not stable(params):
        return None
    p = aux["pred"]
    want = {"loss": None, "pair": p, "triple": (p, {"twice": 2 * p}), "quad": (p, y, -p)}[c["ret"]]
    if c["kind"] == "online":
        out = to_np(run(x, y))
        l, a, g = out["loss"], out["aux"], out["grads"]
        tree_close(plain(out["params"]), params, what="parameters", **TOL)
    else:
        out = to_np(run(x, y)[0])
        l, g = out[0], out[1]
        l, a = l if flag else (l, None)
    close(l, loss, what="loss", **TOL)
    assert (a is None) == (want is None), f"auxiliary output {a!r}"
    if want is not None:
        tree_close(a, want, what="auxiliary outputs", **TOL)
    tree_close(jax.tree_util.tree_leaves(g), jax.tree_util.tree_leaves(grads), what="gradients", **TOL)
    return fx_why(train, start, y)


# a haiku model inside the second backend's optimiser


def build_mixed(model, opt, loss, form):
    from wax.flax.modules.online_optimizer import OnlineOptimizer

    f = with_loss(model, loss)
    m = OnlineOptimizer(model=hk.transform_with_state(f) if form == "transformed" else f, opt=OPTS[opt]())
    return online_run(m), plain_loop(f, OPTS[opt](), "all", "nan")


mixed = cached(build_mixed, maxsize=64)


@R.facet("flax_online_haiku_model",
         cfg(model=MODEL, opt=OPT, loss=LOSSES, form=st.sampled_from(["function", "transformed"]), data=data()),
         quick=80, thorough=3000, weight=2, secs=90)
def _(c):
    x, y = load(c)
    run, ref = mixed(c["model"], c["opt"], c["loss"], c["form"])
    out = to_np(run(x, y))
    loss, aux, train, params, start = to_np(ref(x, y))
    if not stable(params):
        return None
    close(out["loss"], loss, what="loss", **TOL)
    tree_close(out["aux"], aux, what="aux", **TOL)
    tree_close(plain(out["params"]), params, what="parameters", **TOL)
    return why(train, start, y)


# the streaming optimiser of the second backend: one learned scale of the model's output

SCALE_LOSS = {
    "square": lambda p, y: jnp.mean((p - y) ** 2),
    "huber": lambda p, y: jnp.mean(optax.losses.huber_loss(p, y, 1.0)),
    "directed": lambda p, y: jnp.sum(jnp.where(p > y, 1.0, 0.3) * jnp.abs(p - y) ** 1.5) + 0.1 * jnp.sum(p**2),
}


class Scaled:
    def __init__(self, opt, loss, model, aux, form, nargs):
        import flax.linen as nn

        from wax.flax.core.streaming_transforms import StreamingOptimizer, streaming_optimizer, streaming_transform_with_state
        from wax.flax.modules import EWMA, Buffer

        def predict(x):
            if model == "ewma":
                return EWMA(com=2.0)(x) + 0.5
            if model == "window":
                return jnp.nan_to_num(Buffer(3, fill_value=0.0)(x)).sum(axis=0)
            if model == "sum":
                return EWMA(alpha=0.4)(x).sum() - 1.0
            return 2.0 * x

        def fun(*a):
            p = predict(a[0])
            return (p, {"twice": 2 * p}) if aux else p

        if form == "module":

            def learner(*a):
                return StreamingOptimizer(optimizer=OPTS[opt](), loss_fn=SCALE_LOSS[loss], has_aux=aux)(fun, *a)

            self.f = streaming_transform_with_state(learner)
        else:
            self.f = streaming_optimizer(OPTS[opt](), SCALE_LOSS[loss], **({"has_aux": True} if aux else {}))(fun)
        self.init, self.step = jax.jit(self.f.init), jax.jit(lambda p, s, *a: self.f.apply(p, s, None, *a))

        class Alone(nn.Module):
            @nn.compact
            def __call__(self, x):
                return predict(x)

        m, o = Alone(), OPTS[opt]()

        @jax.jit
        def ref(x, y):
            """the model alone, evaluated at the first observation and then at all of them; the plain loop on its outputs"""
            first, var = m.init_with_output(key(), x[0])

            def advance(var, v):
                p, new = m.apply(var, v, mutable=True)
                return {**var, **new}, p

            _, preds = lax.scan(advance, dict(var), x)
            preds = jnp.concatenate([first[None], preds])
            ys = jnp.concatenate([y[:1], y])

            def step(carry, py):
                scale, s = carry
                loss, g = jax.value_and_grad(lambda k: SCALE_LOSS[loss_name](py[0] * k, py[1]))(scale)
                up, s = o.update(g, s, scale)
                new = optax.apply_updates(scale, up)
                return (new, s), (loss, g, new)

            one = jnp.array(1.0)
            _, (losses, grads, scales) = lax.scan(step, (one, o.init(one)), (preds, ys))
            return preds, losses, grads, scales

        loss_name = loss
        self.ref = ref


scaled = cached(Scaled, maxsize=64)


def find(tree, name):
    from flax.core import unfreeze

    tree = unfreeze(tree)
    out = []

    def walk(t):
        for k, v in t.items():
            if k == name:
                out.append(v)
            elif isinstance(v, dict):
                walk(v)

    walk(tree)
    assert len(out) == 1, f"{len(out)} values named {name}"
    return out[0]


@R.facet("streaming_optimizer",
         cfg(opt=OPT, loss=st.sampled_from(sorted(SCALE_LOSS)), model=st.sampled_from(["ewma", "window", "sum", "raw"]),
             aux=st.booleans(), form=st.sampled_from(["decorator", "module"]), nargs=st.sampled_from([1, 2, 2]),
             jit=st.sampled_from([True, True, True, False]), scan=st.booleans(), data=data(nan=False)),
         quick=60, thorough=3000, weight=2, secs=60)
def _(c):
    x, y = load(c)
    x = x[:, :2]
    if not c["jit"]:
        x, y = x[:4], y[:4]
    m = scaled(c["opt"], c["loss"], c["model"], c["aux"], c["form"], c["nargs"])
    preds, losses, grads, scales = to_np(m.ref(x, x if c["nargs"] == 1 else y))
    if not stable(scales):
        return None
    args = lambda t: (x[t],) if c["nargs"] == 1 else (x[t], y[t])
    init, step = (m.init, m.step) if c["jit"] else (m.f.init, lambda p, s, *a: m.f.apply(p, s, None, *a))
    p, s = init(key(), *args(0))
    close(find(s, "scale"), scales[0], what="scale after the initialisation", **TOL)
    outs = []
    if c["scan"] and c["nargs"] == 1 and c["jit"]:
        outs_, s = m.f.scan(p, s, None, jnp.asarray(x))
        outs = [jax.tree_util.tree_map(lambda v: v[t], outs_) for t in range(len(x))]
        close(find(s, "scale"), scales[-1], what="final scale of a scan", **TOL)
    else:
        for t in range(len(x)):
            out, s = step(p, s, *args(t))
            close(find(s, "scale"), scales[t + 1], what=f"scale after step {t}", **TOL)
            outs.append(out)
    for t, out in enumerate(outs):
        if c["form"] == "module":
            out, info = out
            close(info["scale"], scales[t + 1], what=f"reported scale {t}", **TOL)
            close(info["grads"], grads[t + 1], what=f"reported gradient {t}", **TOL)
        assert len(out) == 2 + c["aux"], f"{len(out)} outputs"
        close(out[0], losses[t + 1], what=f"loss {t}", **TOL)
        close(out[1], preds[t + 1], what=f"model output {t}", **TOL)
        if c["aux"]:
            close(out[2]["twice"], 2 * preds[t + 1], what=f"auxiliary output {t}", **TOL)
    mv = int((np.abs(np.diff(np.concatenate([[1.0], scales]))) > 0).sum())
    return "the scale moved" if mv >= 2 else None
