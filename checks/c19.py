"""C19: feedback loops between an agent and an environment."""
import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from common import arr, history, matrix, tree_close, via
from harness import Registry
from run import cached, first, fx_scan, hk_scan, key, rest, to_np

R = Registry(
    "C19",
    rule="at least three rows, and an environment or agent with a state or with parameters",
    assumptions=["deterministic agents and environments with constant parameter initialisers"],
)


def leaf(a):
    return a["move"] if isinstance(a, dict) else a


# environments: env(action, raw) -> reward, obs, info
def env_plain(a, raw):
    return -jnp.sum((raw - leaf(a)) ** 2), raw + 0.5 * leaf(a), {"raw": raw}


def env_memory(a, raw):
    from wax.modules import EWMA

    m = EWMA(com=2.0, name="env_mean")(raw)  # see the probe below
    return jnp.sum(m * leaf(a)), m - leaf(a), {"mean": m}


def env_wealth(a, raw):
    """the state accumulates the rewards"""
    w = hk.get_state("wealth", [], init=jnp.zeros)
    rw = jnp.sum(leaf(a) * raw) * 0.1
    hk.set_state("wealth", w + rw)
    return rw, jnp.tanh(raw + 0.1 * w), {"wealth": w}


def env_delay(a, raw):
    from wax.modules import Lag

    p = Lag(1, name="env_lag")(raw)
    p = jnp.where(jnp.isnan(p), 0.0, p)
    return jnp.sum(p * leaf(a)), {"now": raw, "before": p}, {}


def env_arma(a, raw):
    from wax.modules import ARMA

    y = ARMA(jnp.array([0.5, -0.2]), jnp.array([0.3]))(raw)
    return -jnp.sum((y - leaf(a)) ** 2), y, {"y": y}


def env_relative(a, raw):
    """a parameter that is set by the first row"""
    r = hk.get_parameter("base", raw.shape, init=lambda *_: raw)
    return -jnp.sum((raw - r - leaf(a)) ** 2), raw - r, {"r": r}


ENVS = {"plain": env_plain, "memory": env_memory, "wealth": env_wealth, "delay": env_delay, "arma": env_arma}


def vec(o):
    return o["now"] + 0.25 * o["before"] if isinstance(o, dict) else o


# agents: agent(obs) -> action, info
def agent_copy(o):
    return vec(o) * 0.9, {}


def agent_linear(o):
    y = hk.Linear(3, w_init=hk.initializers.Constant(0.2), b_init=hk.initializers.Constant(0.1))(vec(o))
    return y, {"y": y}


def agent_average(o):
    from wax.modules import EWMA

    m = EWMA(com=3.0)(vec(o))
    return m * 0.5, {"m": m}


def agent_count(o):
    n = hk.get_state("n", [], init=jnp.zeros)
    hk.set_state("n", n + 1)
    return {"move": jnp.sign(vec(o)) * (n + 1), "n": n}, {"n": n}


def agent_past(o):
    from wax.modules import Buffer

    b = Buffer(3, fill_value=0.0)(vec(o))
    return b.sum(axis=0) / 3, {"b": b}


def agent_relative(o):
    """a parameter that is set by the first observation"""
    r = hk.get_parameter("base", vec(o).shape, init=lambda *_: vec(o))
    return jnp.tanh(vec(o) - r) + 0.1, {"r": r}


AGENTS = {"copy": agent_copy, "linear": agent_linear, "average": agent_average, "count": agent_count, "past": agent_past}
STATELESS = ["copy", "linear"]
INIT = np.array([0.3, -0.2, 0.0], np.float32)


def init_action(agent):
    return {"move": INIT, "n": np.float32(7)} if agent == "count" else INIT


def reference(env, agent, own_init=False):
    """explicit alternation from a given action: rows -> rewards, observations, actions, infos"""
    e = hk.transform_with_state(ENVS[env])
    a = hk.transform_with_state(AGENTS[agent])
    eap, aap = jax.jit(e.apply), jax.jit(a.apply)

    def run(rows, action=None, before=()):
        """before: observations shown to the agent first"""
        ep = es = ap = as_ = None
        out = []
        for o in before:
            if ap is None:
                ap, as_ = a.init(key(), o)
            (action, _), as_ = aap(ap, as_, None, o)
        if action is None:  # evaluated on a scratch copy of the agent
            p, s = a.init(key(), rows[0])
            action = a.apply(p, s, None, rows[0])[0][0]
        for r in rows:
            if ep is None:
                ep, es = e.init(key(), action, r)
            (rw, obs, ie), es = eap(ep, es, None, action, r)
            if ap is None:
                ap, as_ = a.init(key(), obs)
            (action, ia), as_ = aap(ap, as_, None, obs)
            out.append({"reward": rw, "obs": obs, "action": action, "ie": ie, "ia": ia})
        return to_np(out)

    return run


ref = cached(reference, maxsize=64)


def stack(steps):
    return jax.tree_util.tree_map(lambda *a: np.stack(a), *steps)


def build_functional(env, agent, init, obs, act, outer):
    from wax.modules import GymFeedback

    def fun(x):
        kw = {"init_action": jax.tree_util.tree_map(jnp.asarray, init_action(agent))} if init else {}
        return GymFeedback(AGENTS[agent], ENVS[env], return_obs=obs, return_action=act, **kw)(x)

    if outer == "unroll":
        from wax.unroll import unroll_transform_with_state

        u = unroll_transform_with_state(fun)

        @jax.jit
        def run(x):
            p, s = u.init(key(), x)
            y, s = u.apply(p, s, None, x)
            return y, s, p

        return run
    return hk_scan(fun)


functional = cached(build_functional, maxsize=64)
ROWS = history(3, lengths=[1, 3, 8, 8, 15], nan=False, scales=(0.2, 0.05))


def cfg(**kw):
    return st.fixed_dictionaries(kw)


# objects are initialised by what they are given first, in a functional loop by what the loop is given
OBJ_ENV = st.sampled_from(sorted(ENVS) + ["relative"])
OBJ_AGENT = st.sampled_from(sorted(AGENTS) + ["relative"])
ENV = st.sampled_from(sorted(ENVS))
AGENT = st.sampled_from(sorted(AGENTS))
ENVS["relative"], AGENTS["relative"] = env_relative, agent_relative
TOL = dict(rtol=1e-4, atol=1e-4)


def why(c, n):
    if n >= 3 and not (c["env"] == "plain" and c["agent"] == "copy"):
        return "episode with state or parameters"
    return None


@R.facet("functional", cfg(env=ENV, agent=AGENT, init=st.booleans(), obs=st.booleans(), act=st.booleans(),
                           outer=st.sampled_from(["scan", "unroll"]), x=ROWS),
         quick=200, thorough=8000, weight=4, secs=90)
def _(c):
    x = arr(c["x"])
    out, info = to_np(functional(c["env"], c["agent"], c["init"], c["obs"], c["act"], c["outer"])(x)[0])
    e = stack(ref(c["env"], c["agent"])(list(x), init_action(c["agent"]) if c["init"] else None))
    want = ["reward"] + ["obs"] * c["obs"] + ["action"] * c["act"]
    assert list(out._fields) == want, f"fields {out._fields}"
    for f in want:
        tree_close(getattr(out, f), e[f], what=f, **TOL)
    tree_close(info.env, e["ie"], what="environment info", **TOL)
    tree_close(info.agent, e["ia"], what="agent info", **TOL)
    return why(c, len(x))


# ------------------------------------------------------------------ objects


class Recorder:
    """tuple of plain functions: no class of wax"""

    def __init__(self):
        self.steps = []
        self.start = []
        self.acts = []
        self.end = 0

    def callbacks(self):
        return (
            lambda env, agent, obs: self.start.append(obs),
            lambda env, agent, obs, action: self.acts.append((obs, action)),
            lambda env, agent, s: self.steps.append(s) and None,
            lambda env, agent: setattr(self, "end", self.end + 1),
        )


def build_objects(env, agent):
    """the pair of transformed functions, each apply compiled"""

    def e(a, raw):
        rw, obs, _ = ENVS[env](a, raw)
        return rw, obs

    te = hk.transform_with_state(e)
    ta = hk.transform_with_state(lambda o: AGENTS[agent](o)[0])
    jit = lambda t: hk.TransformedWithState(t.init, jax.jit(t.apply))
    return jit(te), jit(ta)


objects = cached(build_objects, maxsize=64)


def source(x, log=None):
    for i, r in enumerate(x):
        yield r, {"row": i, "maxlen": len(x)}


@R.facet("objects", cfg(env=OBJ_ENV, agent=OBJ_AGENT, given=st.booleans(), how=st.sampled_from(["method", "function"]), x=ROWS),
         quick=150, thorough=6000, weight=3, secs=90)
def _(c):
    from wax.gym.gym_unroll import gym_unroll
    from wax.gym.haiku_agent import HaikuAgent
    from wax.gym.haiku_env import HaikuEnv

    x = arr(c["x"])
    te, ta = objects(c["env"], c["agent"])
    env = HaikuEnv(source(x), te, name="env")
    agent = HaikuAgent(ta, name="agent")
    rec = Recorder()
    kw = {"callbacks": [rec.callbacks()]}
    start = x[0]
    rows = x[1:]
    if c["given"]:
        # a given first observation replaces the one of reset: all the rows are left
        start = (x[0] * 0.5 + 0.1).astype(np.float32)
        kw["obs"] = start
        rows = x
    last = agent.unroll(env, **kw) if c["how"] == "method" else gym_unroll(agent, env, **kw)
    n = len(rows)
    if n:
        exp = ref(c["env"], c["agent"])(list(rows), before=[start])
    else:
        exp = []
    assert len(rec.start) == 1 and (np.asarray(rec.start[0]) == start).all(), "start event"
    assert rec.end == 1, f"{rec.end} end events"
    assert len(rec.steps) == n + 1, f"{len(rec.steps)} steps for {n} rows"
    assert len(rec.acts) == n + 1
    for t in range(n):
        s, e = rec.steps[t], exp[t]
        assert not s.done, f"done at step {t} of {n}"
        tree_close(to_np(s.rw), e["reward"], what=f"reward {t}", **TOL)
        tree_close(to_np(s.obs), e["obs"], what=f"obs {t}", **TOL)
        assert s.info["row"] == t + (0 if c["given"] else 1), f"info of step {t}: {s.info}"
        # the action of a step is the one computed from the previous observation
        if t:
            tree_close(to_np(s.action), exp[t - 1]["action"], what=f"action {t}", **TOL)
            tree_close(to_np(rec.acts[t][0]), exp[t - 1]["obs"], what=f"observation shown at {t}", **TOL)
        tree_close(to_np(rec.acts[t][1]), to_np(s.action), what=f"act event {t}")
    s = rec.steps[n]
    assert s.done and s.obs is None and s.rw == 0, "last step"
    assert last is s, "returned state is not the last one"
    if n:
        tree_close(to_np(s.action), exp[-1]["action"], what="last action", **TOL)
        assert len(env) == len(x)
    return why(c, n)


@R.facet("reset", cfg(env=OBJ_ENV, agent=OBJ_AGENT, x=ROWS, cut=st.integers(0, 14), reset=st.booleans()),
         quick=120, thorough=5000, weight=3, secs=90)
def _(c):
    """an episode interrupted, then a new one over the remaining rows"""
    from wax.gym.haiku_agent import HaikuAgent
    from wax.gym.haiku_env import HaikuEnv

    x = arr(c["x"])
    if len(x) < 3:
        return None
    k = c["cut"] % (len(x) - 2)
    te, ta = objects(c["env"], c["agent"])
    gen = source(x)
    env, agent = HaikuEnv(gen, te), HaikuAgent(ta)

    def steps(n, obs):
        out = []
        for _ in range(n):
            action = agent(obs)
            obs, rw, done, info = env.step(action)
            assert not done
            out.append((rw, obs, action))
        return to_np(out)

    steps(k, env.reset())
    if c["reset"]:
        agent.reset()
        obs = env.reset()
        rows = x[k + 1 :]
        fresh = ref(c["env"], c["agent"])(list(rows[1:]), before=[rows[0]])
        got = steps(len(rows) - 1, obs)
    else:
        # the agent keeps its memory over an environment reset
        seen = [x[0]] + [e["obs"] for e in (ref(c["env"], c["agent"])(list(x[1 : k + 1]), before=[x[0]]) if k else [])]
        seen = seen[:k]
        obs = env.reset()
        rows = x[k + 1 :]
        fresh = ref(c["env"], c["agent"])(list(rows[1:]), before=seen + [rows[0]])
        got = steps(len(rows) - 1, obs)
    for t, (g, e) in enumerate(zip(got, fresh, strict=True)):
        tree_close(g[0], e["reward"], what=f"reward {t} after reset", **TOL)
        tree_close(g[1], e["obs"], what=f"obs {t} after reset", **TOL)
    action = agent(got[-1][1]) if got else None
    end = env.step(action if action is not None else init_action(c["agent"]))
    assert end[2] is True and end[0] is None, "no end after the last row"
    return why(c, len(rows)) if k else None


@R.facet("both_styles", cfg(env=ENV, agent=st.sampled_from(STATELESS), x=ROWS, obs=st.booleans(), act=st.booleans()),
         quick=120, thorough=5000, weight=3, secs=90)
def _(c):
    """the recorded object episode is the functional one started from the agent's first action"""
    from wax.gym.callbacks.record import Record
    from wax.gym.haiku_agent import HaikuAgent
    from wax.gym.haiku_env import HaikuEnv

    x = arr(c["x"])
    if len(x) < 2:
        return None
    te, ta = objects(c["env"], c["agent"])
    with Record(return_obs=c["obs"], return_action=c["act"]) as rec:
        HaikuAgent(ta).unroll(HaikuEnv(source(x), te))
    out = rec.get_outputs()
    f = both(c["env"], c["agent"], c["obs"], c["act"])
    want = to_np(f(x))
    assert out._fields == want._fields, f"{out._fields} / {want._fields}"
    tree_close(out.reward, want.reward, what="reward", **TOL)
    if c["obs"]:
        tree_close(out.obs, want.obs, what="obs", **TOL)
    if c["act"]:
        # the object loop records the action that led to the observation
        a0 = to_np(AGENT_FIRST(c["agent"])(x[0]))
        shifted = np.concatenate([a0[None], want.action[:-1]])
        tree_close(out.action, shifted, what="action", **TOL)
    return why(c, len(x))


def build_both(env, agent, obs, act):
    from wax.modules import GymFeedback

    @jax.jit
    def run(x):
        a0 = AGENT_FIRST(agent)(x[0])

        def fun(r):
            return GymFeedback(AGENTS[agent], ENVS[env], return_obs=obs, return_action=act, init_action=a0)(r)

        return hk_scan(fun)(x[1:])[0][0]

    return run


both = cached(build_both, maxsize=64)


def AGENT_FIRST(agent):
    t = hk.transform_with_state(AGENTS[agent])

    def f(o):
        p, s = t.init(key(), o)
        return t.apply(p, s, None, o)[0][0]

    return f


# ------------------------------------------------------------------ second backend


def build_fx(agent, loop, reward):
    import flax.linen as nn

    from wax.flax.modules import EWMA
    from wax.flax.modules.gym_feedback import GymFeedback, GymFeedbackLoop

    GymFeedback, GymFeedbackLoop = via(GymFeedback, GymFeedbackLoop)

    class Average(nn.Module):
        @nn.compact
        def __call__(self, o):
            return EWMA(com=3.0)(o) * 0.5

    class Reward(nn.Module):
        @nn.compact
        def __call__(self, o, r=None):
            n = self.variable("state", "total", lambda: jnp.zeros(()))
            n.value = n.value + (0.0 if r is None else r)
            return o * 0.5 + n.value

    mk = {"average": Average, "reward": Reward, "function": lambda: (lambda o: o * 2.0 - 1.0)}[agent]
    cls = GymFeedbackLoop if loop else GymFeedback

    def bare():
        class Bare(nn.Module):
            def setup(self):
                self.a = mk()

            def __call__(self, o, r):
                return self.a(o, r) if (agent == "reward" and reward) else self.a(o)

        return Bare()

    def wrapped():
        class W(nn.Module):
            @nn.compact
            def __call__(self, o, r):
                return cls(agent=mk())(o, r) if reward else cls(agent=mk())(o)

        return W()

    return fx_scan(wrapped), fx_scan(bare)


fx = cached(build_fx, maxsize=32)


@R.facet("flax", cfg(agent=st.sampled_from(["average", "reward", "function"]), loop=st.booleans(), reward=st.booleans(),
                     x=history(4, lengths=[2, 8], nan=False)), quick=60, thorough=2000, weight=1)
def _(c):
    x = arr(c["x"])
    o, r = x[:, :3], x[:, 3]
    run, bare = fx(c["agent"], c["loop"], c["reward"])
    y, s, _ = to_np(run(o, r))
    e = to_np(bare(o, r)[0])
    if c["loop"]:
        obs, action, rw = y
        tree_close(obs, o, what="observation")
        tree_close(rw, r if c["reward"] else np.zeros_like(r), what="reward")
    else:
        action = y
    tree_close(action, e, what="action", **TOL)
    kept = [v for k, v in jax.tree_util.tree_flatten_with_path(s)[0] if "prev_action" in jax.tree_util.keystr(k)]
    assert len(kept) == 1
    tree_close(kept[0], e[-1], what="stored action", **TOL)
    return "stateful agent" if c["agent"] != "function" and len(x) > 2 else None


@R.probe("init-action-module-names")
def _():
    """agent and environment with modules of one name, no initial action: each must use its own parameters"""
    from wax.modules import EWMA, GymFeedback

    def env(a, raw):
        m = EWMA(com=2.0)(raw)
        return jnp.sum(m * a), m, {"mean": m}

    x = arr([[1.0, 0.0, 2.0], [0.0, 1.0, 1.0], [2.0, 2.0, 0.0]])
    e = hk_scan(lambda r: env(jnp.zeros(3), r)[1])(x)[0]
    (_, info), _, _ = hk_scan(lambda r: GymFeedback(agent_average, env)(r))(x)
    tree_close(to_np(info.env["mean"]), to_np(e), what="environment", **TOL)
