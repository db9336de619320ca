"""Larger streaming programs (learners, feedback loops, mapped and gated modules), per backend.

Each entry maps a vector observation (3,) to a tree of outputs.
"""
import jax
import jax.numpy as jnp
import optax


def _clean(x):
    return jnp.clip(jnp.nan_to_num(x, posinf=20.0, neginf=-20.0), -20, 20) / 8


# ------------------------------------------------------------------ haiku


def hk_online(opt):
    def fun(x):
        import haiku as hk
        from wax.modules import EWMA, OnlineOptimizer

        def model(u, y):
            pred = hk.Linear(1)(u)[0] + EWMA(com=3)(u).sum() * 0.01
            return (pred - y) ** 2, {"pred": pred}

        c = _clean(x)
        return tuple(OnlineOptimizer(model, opt, return_params=True)(c[:2], c[2]))

    return fun


def hk_learner(x):
    import haiku as hk
    from wax.modules import OnlineSupervisedLearner

    def model(u):
        return hk.Linear(1)(u)[0]

    y, info = OnlineSupervisedLearner(model, optax.adam(0.05), lambda y, p: (y - p) ** 2)(x[:2] / 8, x[2] / 8)
    return {"pred": jnp.nan_to_num(y), "params": info.params}


def hk_gym(x):
    from wax.modules import EWMA, Counter, GymFeedback

    def agent(obs):
        return jnp.tanh(EWMA(com=2, name="ag")(obs)), {"n": Counter()()}

    def env(action, raw):
        obs = EWMA(com=1, name="env")(raw) * 0.5 + action
        return (action * raw).sum(), obs, {"raw": raw}

    out, info = GymFeedback(agent, env, return_obs=True, return_action=True)(_clean(x))
    return {"out": tuple(out), "env": info.env, "agent": info.agent}


def hk_vmap(x):
    from wax.modules import EWMA, Buffer, Diff
    from wax.stateful import vmap_lift_with_state

    def one(v):
        return EWMA(com=2)(v[None]), Buffer(3)(v), Diff()(v[None])

    return vmap_lift_with_state(one)(x)


def hk_update_params(x):
    import haiku as hk
    from wax.modules import EWMA, UpdateParams

    def model(u):
        return hk.Linear(2, name="l")(u) + EWMA(com=2)(u)[:2]

    w = {"l": {"w": jnp.outer(_clean(x), jnp.array([1.0, -1.0])), "b": jnp.ones(2)}}
    return UpdateParams(model, params_predicate=lambda m, n, p: m == "l")(w, _clean(x)), EWMA(com=2)(x)


def hk_masks(x):
    from wax.modules import EWMA
    from wax.modules.mask_mean import MaskMean
    from wax.modules.mask_std import MaskStd

    m = x > 0
    return MaskMean(axis=None)(m, x), MaskStd(axis=None)(m, x), EWMA(com=2)(x)


def hk_changes(x):
    from wax.modules import OHLC, EWMVar, HasChanged

    r = HasChanged()(jnp.floor(jnp.nan_to_num(x[0]) / 4).astype(jnp.int32))
    return tuple(OHLC()(x[1:], reset_on=r)), EWMVar(com=3)(x)


HK = {
    "online_sgd": hk_online(optax.sgd(0.05)),
    "online_adam": hk_online(optax.adam(0.05)),
    "learner": hk_learner,
    "gym": hk_gym,
    "vmap": hk_vmap,
    "update_params": hk_update_params,
    "masks": hk_masks,
    "changes": hk_changes,
}


def hk_newton():
    from wax.optim.newton import newton

    return hk_online(newton(0.1, eps=0.5))


HK["online_newton"] = lambda x: hk_newton()(x)


# ------------------------------------------------------------------ flax


def _compact(body):
    import flax.linen as nn

    class Special(nn.Module):
        @nn.compact
        def __call__(self, x):
            return body(x)

    return Special


def fx_arma(x):
    from wax.flax.modules.arma import ARMA

    return ARMA(jnp.array([0.2, 0.4]), jnp.array([0.3, -0.5]))(x)


def fx_snarimax(x):
    from wax.flax.modules.snarimax import SNARIMAX

    return SNARIMAX(lags_x=2, lags_y=2, regressor=lambda f: f)(_clean(x)[:2], _clean(x)[1:])


def fx_gate(x):
    from wax.flax.core.streaming_transforms import ConditionalComputation
    from wax.flax.modules import EWMA

    m = EWMA(com=2)
    return ConditionalComputation(update_fn=lambda v: m(v), event_fn=lambda v: v[0] > 0)(x)


def fx_optimizer(x):
    from wax.flax.core.streaming_transforms import StreamingOptimizer
    from wax.flax.modules import EWMA

    m = EWMA(com=2)
    c = _clean(x)
    loss, info = StreamingOptimizer(
        optimizer=optax.adam(0.05), loss_fn=lambda p, y: jnp.mean((p - y) ** 2)
    )(lambda u, y: m(u), c[:2], c[1:])
    return loss, info


def fx_optax(x):
    from wax.flax.modules import EWMA
    from wax.flax.modules.optax_optimizer import OptaxOptimizer

    new, _ = OptaxOptimizer(optax.adam(0.1))({"w": jnp.ones(3)}, {"w": _clean(x)})
    return new, EWMA(com=2)(x)


def fx_machine(x):
    from wax.flax.core.advanced_state_patterns import CompositeStateManager, HierarchicalStateMachine
    from wax.flax.modules import EWMA, Buffer, Ffill

    a = HierarchicalStateMachine(state_modules={"a": EWMA(com=2), "b": Ffill()}, dependencies={"a": ["b"]})(x)
    b = CompositeStateManager(state_patterns={"p": EWMA(com=1), "q": Ffill()})(x)
    return a, b


def fx_changes(x):
    from wax.flax.modules import OHLC, EWMVar, HasChanged

    r = HasChanged()(jnp.floor(jnp.nan_to_num(x[0]) / 4).astype(jnp.int32))
    return tuple(OHLC()(x[1:], r)), EWMVar(com=3)(x)


FX = {
    k: _compact(v)
    for k, v in {
        "arma": fx_arma,
        "snarimax": fx_snarimax,
        "gate": fx_gate,
        "optimizer": fx_optimizer,
        "optax": fx_optax,
        "machine": fx_machine,
        "changes": fx_changes,
    }.items()
}
