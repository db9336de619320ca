"""C22: resets, state machines and dependent states against small explicit models."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from catalog import fx_apply, program
from common import arr, history, tree_close
from drivers import nondivergent, plain
from harness import Registry
from run import cached, key, to_np

R = Registry(
    "C22",
    rule="a reset, a transition, a condition that does not hold, a dependency registered after its user, a stage fed with an earlier output or a full history is really met",
    assumptions=[
        "initialising a module of the second backend runs its first step, so the first observation of a history is consumed by init",
        "state machines and conditional updates select python branches and are run interpreted (one step at a time)",
    ],
)


def stack(outs):
    return jax.tree_util.tree_map(lambda *v: np.stack([np.asarray(x) for x in v]), *outs)


# ------------------------------------------------------------------ scans with resets


class Scan:
    def __init__(self, ops, thr, preserve):
        import flax.linen as nn

        from wax.flax.core.streaming_transforms import streaming_scan

        def fun(x):
            outs = []
            for o in ops:
                out, x = fx_apply(o, x)
                outs.append(out)
            return {"outs": outs, "last": x}

        class Mod(nn.Module):
            @nn.compact
            def __call__(self, x):
                return fun(x)

        reset = None if thr is None else (lambda x: x[0] > thr)
        self.scan = streaming_scan(fun, reset_on=reset) if preserve is None else streaming_scan(reset_on=reset, preserve_state=preserve)(fun)
        self.m = Mod()
        self.jit = jax.jit(lambda *a, rng=None: self.scan.scan_apply(*a, rng=rng))
        # names of the library's wrapper are hidden by giving leaves in order
        self.init = jax.jit(lambda x: self.m.init(key(), x))
        self.step = jax.jit(lambda v, x: self.m.apply(v, x, mutable=True))


scan_setup = cached(lambda ops, thr, preserve: Scan(ops, thr, preserve), maxsize=64)


@R.facet(
    "scan_resets",
    st.fixed_dictionaries({
        "ops": program(hk=False, max_ops=2),
        "thr": st.sampled_from([None, -1.0, 0.0, 0.0, 0.5, 2.0]),
        "preserve": st.sampled_from([None, True]),
        "given": st.sampled_from(["none", "both", "params", "state"]),
        "rng": st.booleans(),
        "jit": st.sampled_from([True, True, True, False]),
        "xs": history(3, lengths=(4, 8, 14), nan=True),
    }),
    quick=130, thorough=5000, weight=5, secs=80,
)
def _(c):
    s = scan_setup(c["ops"], c["thr"], c["preserve"])
    xs = arr(c["xs"])
    jx = jnp.asarray(xs)
    params, state0 = s.scan.init(key(), jx[0])
    v = plain(s.init(jx[0]))
    given = c["given"]
    if given in ("both", "state"):
        # start from the state two steps later
        _, state0 = s.scan.apply(params, state0, None, jx[1])
        _, state0 = s.scan.apply(params, state0, None, jx[2])
        for t in (1, 2):
            v = plain(s.step(v, jx[t])[1])
    start = v
    outs, resets = [], 0
    for t in range(len(xs)):
        y, v = s.step(v, jx[t])
        v = plain(v)
        outs.append(to_np(y))
        if c["thr"] is not None and xs[t, 0] > c["thr"]:
            v = start
            resets += t < len(xs) - 1
    if not nondivergent(stack(outs)):
        return None
    a = (jx,) + {"none": (), "both": (params, state0), "params": (params, None), "state": (None, state0)}[given]
    if len(a) > 1 and c["jit"]:
        got, fin = s.jit(*a, rng=key() if c["rng"] else None)
    else:
        got, fin = s.scan.scan_apply(*a, rng=key() if c["rng"] else None)
    tree_close(to_np(got), stack(outs), rtol=2e-4, atol=1e-5, what="outputs")
    flat = lambda t: [np.asarray(q, np.float64) for q in jax.tree_util.tree_leaves(plain(t))]
    tree_close(flat(fin), flat({k: q for k, q in v.items() if k != "params"}), rtol=2e-4, atol=1e-5, what="final state")
    return f"{resets} resets" if resets and jax.tree_util.tree_leaves(fin) else None


class NoisyScan:
    def __init__(self, thr):
        import flax.linen as nn

        from wax.flax.core.streaming_transforms import streaming_scan
        from wax.flax.modules import EWMA

        class Noise(nn.Module):
            noisy: bool = True

            @nn.compact
            def __call__(self, x):
                e = jax.random.uniform(self.make_rng("default"), x.shape) if self.noisy else 0.0
                return EWMA(com=2.0)(x + e), e

        reset = None if thr is None else (lambda x: x[0] > thr)
        self.noisy = streaming_scan(lambda x: Noise()(x), reset_on=reset)
        self.smooth = streaming_scan(lambda x: Noise(noisy=False)(x), reset_on=reset)
        self.run = jax.jit(lambda x, p, s, k: self.noisy.scan_apply(x, p, s, rng=k))


noisy_scan = cached(lambda thr: NoisyScan(thr), maxsize=8)


@R.facet(
    "scan_keys",
    st.fixed_dictionaries({
        "thr": st.sampled_from([None, 0.0]),
        "seed": st.integers(0, 1000),
        "given": st.sampled_from([True, True, True, False]),
        "xs": history(2, lengths=(3, 6)),
    }),
    quick=40, thorough=1500, weight=1, secs=40,
)
def _(c):
    """every step of a scan draws its own random numbers, whatever the resets"""
    m = noisy_scan(c["thr"])
    xs = jnp.asarray(arr(c["xs"]))
    k = jax.random.PRNGKey(c["seed"])
    if c["given"]:
        p, s = m.noisy.init(k, xs[0])
        (y, e), fin = m.run(xs, p, s, k)
        (y2, e2), _ = m.run(xs, p, s, k)
    else:
        (y, e), fin = m.noisy.scan_apply(xs, rng=k)
        (y2, e2), _ = m.noisy.scan_apply(xs, rng=k)
    e = np.asarray(e)
    tree_close(to_np((y2, e2)), to_np((y, e)), what="the same key again")
    assert len(np.unique(e)) == e.size, f"random numbers repeated over the steps: {e.tolist()}"
    (_, e3), _ = m.noisy.scan_apply(xs, rng=jax.random.PRNGKey(c["seed"] + 1))
    assert not np.array_equal(np.asarray(e3), e), "the key is not used"
    if c["given"]:
        (y4, _), fin4 = m.smooth.scan_apply(xs + e, p, s)
        if c["thr"] is None or np.array_equal(np.asarray(xs + e)[:, 0] > c["thr"], np.asarray(xs)[:, 0] > c["thr"]):
            tree_close(to_np(y), to_np(y4), what="the scan of the noisy sequence")
    return f"{len(e)} steps"


@R.probe("scan-preserve-state-false")
def _():
    """preserve_state=False is documented as re-initialising on a reset"""
    from wax.flax.core.streaming_transforms import streaming_scan
    from wax.flax.modules import Counter

    f = streaming_scan(reset_on=lambda x: x > 0, preserve_state=False)(lambda x: Counter()())
    got = np.asarray(f.scan_apply(jnp.array([0.0, 0.0, 1.0, 0.0]))[0])
    assert got[3] <= 2, f"no reset: counts {got}"


@R.probe("streaming-scan-module")
def _():
    """the module form neither carries the state of its function nor resets on a traced condition"""
    from wax.flax.core.streaming_transforms import StreamingScan
    from wax.flax.modules import Counter

    import flax.linen as nn

    class Count(nn.Module):
        @nn.compact
        def __call__(self, x):
            return Counter()() + 0 * x

    m = StreamingScan(fn=Count(), reset_fn=lambda x: x > 5)
    (got, _), _ = m.init_with_output(key(), jnp.array([0.0, 0.0, 9.0, 0.0]))
    assert np.asarray(got)[1] > np.asarray(got)[0], f"state not carried: {got}"


# ------------------------------------------------------------------ modules of the models


def modules():
    import flax.linen as nn

    class Cell(nn.Module):
        """k * (number of calls) + x: shows which module ran, and how often"""

        k: float

        @nn.compact
        def __call__(self, x):
            n = self.variable("state", "n", lambda: jnp.zeros(()))
            n.value = n.value + 1
            return self.k * n.value + x

    class Dep(nn.Module):
        k: float
        deps: tuple

        @nn.compact
        def __call__(self, x, **others):
            n = self.variable("state", "n", lambda: jnp.zeros(()))
            n.value = n.value + 1
            return self.k * n.value + x + sum((i + 2) * others[d] for i, d in enumerate(self.deps))

    class Dict(nn.Module):
        k: float
        keys: tuple

        @nn.compact
        def __call__(self, x):
            n = self.variable("state", "n", lambda: jnp.zeros(()))
            n.value = n.value + 1
            return {q: self.k * n.value + (i + 1) * x for i, q in enumerate(self.keys)}

    class Stage(nn.Module):
        """takes a number or a dictionary; gives a number or a dictionary"""

        k: float
        out: str

        @nn.compact
        def __call__(self, x):
            n = self.variable("state", "n", lambda: jnp.zeros(()))
            n.value = n.value + 1
            v = sum(x.values()) if hasattr(x, "items") else x
            y = 0.5 * v + self.k * n.value
            if self.out == "number":
                return y
            return {self.out: y}

    return {"cell": Cell, "dep": Dep, "dict": Dict, "stage": Stage}


M = None


def mod(name, *a, **k):
    global M
    if M is None:
        M = modules()
    return M[name](*a, **k)


XS = st.lists(st.integers(-8, 8), min_size=2, max_size=9)
NAMES = ["b", "a", "zed", "c2", "warm", "m", "aa"]


def check_seq(got, want, what):
    tree_close(to_np(got), want, rtol=1e-4, atol=1e-4, what=what)


# ------------------------------------------------------------------ finite state machines


@st.composite
def machine(draw):
    n = draw(st.sampled_from([2, 3, 3, 4, 1]))
    names = draw(st.permutations(NAMES))[:n]
    trans = {}
    for s in names:
        t = draw(st.lists(st.tuples(st.sampled_from(names), st.integers(-5, 5), st.booleans()), min_size=draw(st.sampled_from([0, 1, 1, 2])), max_size=3))
        if t:
            trans[s] = [list(v) for v in t]
    return {"names": names, "trans": trans, "start": draw(st.sampled_from(names)), "xs": draw(st.lists(st.integers(-8, 8), min_size=4, max_size=14)), "form": draw(st.sampled_from(["module", "functions"]))}


@R.facet("machines", machine(), quick=150, thorough=8000, weight=3, secs=60)
def _(c):
    from wax.flax.core.streaming_transforms import StreamingStateMachine, state_machine
    from wax.flax.core.transform import flax_transform_with_state

    k = {s: float(10 ** (i + 1)) for i, s in enumerate(c["names"])}
    # a name can be the target of one condition only: the last one given stands, at the first place
    trans = {s: {t: (thr, up) for t, thr, up in ts} for s, ts in c["trans"].items()}
    cond = lambda thr, up: (lambda x: bool(x > thr)) if up else (lambda x: bool(x < thr))
    conds = {s: {t: cond(*v) for t, v in ts.items()} for s, ts in trans.items()}
    if c["form"] == "module":
        f = flax_transform_with_state(StreamingStateMachine(states={s: mod("cell", k[s]) for s in c["names"]}, transitions=conds, initial_state=c["start"]))
    else:
        f = state_machine({s: (lambda x, s=s: mod("cell", k[s])(x)) for s in c["names"]}, conds, c["start"])(lambda x: None)
    cur, count, moved, stayed = c["start"], {s: 0 for s in c["names"]}, 0, 0
    want = []
    for x in c["xs"]:
        count[cur] += 1
        y = k[cur] * count[cur] + x
        nxt = cur
        for t, (thr, up) in trans.get(cur, {}).items():
            if (x > thr) if up else (x < thr):
                nxt = t
                break
        moved += nxt != cur
        stayed += nxt == cur and bool(trans.get(cur))
        cur = nxt
        want.append((y, nxt))
    xs = [jnp.asarray(float(x)) for x in c["xs"]]
    p, s = f.init(key(), xs[0])
    for t in range(1, len(xs)):
        (y, n), s2 = f.apply(p, s, None, xs[t])
        (y2, n2), _ = f.apply(p, s, None, xs[t])
        assert (float(y), n) == (float(y2), n2), "the same step again differs"
        s = s2
        assert n == want[t][1], f"step {t}: state {n}, expected {want[t][1]}"
        check_seq(y, np.float32(want[t][0]), f"step {t}")
    return f"{moved} transitions" if moved and stayed else None


# ------------------------------------------------------------------ conditional updates


@R.facet(
    "conditional",
    st.fixed_dictionaries({
        "xs": XS, "thr": st.integers(-8, 8), "form": st.sampled_from(["module", "function", "ewma"]), "k": st.sampled_from([1.0, 100.0]),
    }),
    quick=120, thorough=6000, weight=2, secs=60,
)
def _(c):
    import catalog
    from wax.flax.core.streaming_transforms import ConditionalStateUpdate, conditional_update
    from wax.flax.core.transform import flax_transform_with_state

    cond = lambda x: bool(x.sum() > c["thr"])
    xs = c["xs"]
    if c["form"] == "ewma":
        # a module with parameters has to be met by init
        xs = [max(xs[0], c["thr"] + 1)] + xs[1:]
        make = lambda: catalog.fx_module(["ewma", {"decay": ["alpha", 0.5], "adjust": True, "ignore_na": False, "min_periods": 0, "initial_value": "nan"}])
        f = flax_transform_with_state(ConditionalStateUpdate(module=make(), condition_fn=cond))
    elif c["form"] == "module":
        f = flax_transform_with_state(ConditionalStateUpdate(module=mod("cell", c["k"]), condition_fn=cond))
    else:
        f = conditional_update(cond)(lambda x: mod("cell", c["k"])(x))
    n, num, den, held, updated = 0, 0.0, 0.0, 0, 0
    want = []
    for x in xs:
        if x > c["thr"]:
            n += 1
            num, den = x + num / 2, 1 + den / 2
            want.append(num / den if c["form"] == "ewma" else c["k"] * n + x)
            updated += 1
        else:
            want.append(float(x))
            held += 1
    shape = (1,)
    ax = [jnp.full(shape, float(x)) for x in xs]
    p, s = f.init(key(), ax[0])
    for t in range(1, len(xs)):
        before = to_np(plain(s))
        y, s = f.apply(p, s, None, ax[t])
        check_seq(y, np.full(shape, want[t]), f"step {t}")
        if not xs[t] > c["thr"]:
            tree_close(to_np(plain(s)), before, rtol=0, atol=0, what=f"state kept at step {t}")
    return f"{held} of {len(xs)} steps held" if held and updated > 1 else None


@R.probe("conditional-reset-noop")
def _():
    from wax.flax.core.streaming_transforms import conditional_update

    f = conditional_update(lambda x: bool(x > 0), reset_on_condition=True)(lambda x: mod("cell", 1.0)(x))
    p, s = f.init(key(), jnp.array(1.0))
    y, s = f.apply(p, s, None, jnp.array(1.0))
    assert float(y) == 2.0, f"state not reset when the condition holds: {y}"


@R.probe("conditional-init")
def _():
    """a module with parameters whose condition does not hold on the first observation"""
    from wax.flax.core.streaming_transforms import ConditionalStateUpdate
    from wax.flax.core.transform import flax_transform_with_state
    from wax.flax.modules import EWMA

    f = flax_transform_with_state(ConditionalStateUpdate(module=EWMA(com=1), condition_fn=lambda x: bool(x[0] > 0)))
    p, s = f.init(key(), jnp.array([-1.0]))
    y, s = f.apply(p, s, None, jnp.array([1.0]))
    assert float(y[0]) == 1.0


# ------------------------------------------------------------------ dependent states


@st.composite
def graph(draw, max_n=6, cyclic=False):
    n = draw(st.integers(1, max_n))
    order = draw(st.permutations(NAMES))[:n]
    deps = {}
    for i, s in enumerate(order):
        pool = order if cyclic else order[:i]
        d = draw(st.lists(st.sampled_from(pool), max_size=3, unique=True)) if pool else []
        if d or draw(st.booleans()):
            deps[s] = d
    return {"names": draw(st.permutations(order)), "deps": deps}


def topological(names, deps):
    out = []
    while len(out) < len(names):
        for s in names:
            if s not in out and all(d in out for d in deps.get(s, [])):
                out.append(s)
    return out


@R.facet(
    "dependent_states",
    st.fixed_dictionaries({"g": graph(), "xs": XS, "form": st.sampled_from(["module", "module", "decorator"])}),
    quick=120, thorough=6000, weight=3, secs=60,
)
def _(c):
    from wax.flax.core.streaming_transforms import HierarchicalState, hierarchical_composition
    from wax.flax.core.transform import flax_transform_with_state

    names, deps = c["g"]["names"], c["g"]["deps"]
    if c["form"] == "decorator":
        deps = {}
    ms = {s: mod("dep", float(i + 1), tuple(deps.get(s, []))) for i, s in enumerate(names)}
    if c["form"] == "decorator":
        f = hierarchical_composition(**ms)(lambda x: x)
    else:
        f = flax_transform_with_state(HierarchicalState(modules=ms, dependencies=deps or None))
    order = topological(names, deps)
    p, s = f.init(key(), x=jnp.asarray(float(c["xs"][0])))
    step = jax.jit(lambda s, x: f.apply(p, s, None, x=x))
    for t in range(1, len(c["xs"])):
        x = float(c["xs"][t])
        want = {}
        for q in order:
            i = names.index(q)
            want[q] = (i + 1) * (t + 1.0) + x + sum((j + 2) * want[d] for j, d in enumerate(deps.get(q, [])))
        y, s = step(s, jnp.asarray(x))
        assert set(y) == set(names)
        check_seq({q: y[q] for q in names}, {q: np.float32(want[q]) for q in names}, f"step {t}")
    late = any(names.index(d) > names.index(q) for q in deps for d in deps[q])
    return "a dependency registered after its user" if late else None


@R.facet(
    "execution_order",
    st.fixed_dictionaries({"g": graph(7) | graph(7) | graph(5, cyclic=True), "active": st.lists(st.integers(0, 6), min_size=1, max_size=7, unique=True)}),
    quick=300, thorough=20000, weight=2, secs=40,
)
def _(c):
    from wax.flax.core.advanced_state_patterns import HierarchicalStateMachine

    names, deps = c["g"]["names"], c["g"]["deps"]
    active = [names[i] for i in c["active"] if i < len(names)] or names
    m = HierarchicalStateMachine(state_modules={s: mod("cell", 1.0) for s in names}, dependencies=deps)
    order = list(m.get_execution_order(active))
    assert sorted(order) == sorted(active), f"{order} is no order of {active}"
    cyc = False
    seen = {}

    def reach(s, path):
        nonlocal cyc
        if s in path:
            cyc = True
            return
        for d in deps.get(s, []):
            reach(d, path | {s})

    for s in names:
        reach(s, frozenset())
    if cyc:
        return "circular dependencies"
    pairs = 0
    for s in active:
        for d in deps.get(s, []):
            if d in active:
                pairs += 1
                assert order.index(d) < order.index(s), f"{s} before {d}, which it depends on: {order}"
    return f"{pairs} ordered pairs" if pairs else None


@st.composite
def coordinated(draw):
    if draw(st.booleans()):
        # a chain with shortcuts, where every state is influenced by all those above it
        n = draw(st.integers(3, 5))
        order = draw(st.permutations(NAMES))[:n]
        deps = {order[0]: []}
        for i in range(1, n):
            above = [order[i - 1 if draw(st.integers(0, 3)) else draw(st.integers(0, i - 1))]]
            above += [o for o in order[:i] if o not in above and draw(st.booleans())]
            deps[order[i]] = draw(st.permutations(above))
        g = {"names": draw(st.permutations(order)), "deps": deps}
        kinds = {s: ["p"] for s in order}
        return {"g": g, "kinds": kinds, "strategy": "hierarchical", "xs": draw(XS), "form": draw(st.sampled_from(["module", "decorator"]))}
    g = draw(graph(5))
    kinds = {s: draw(st.lists(st.sampled_from(["p", "q", "r"]), min_size=1, max_size=3, unique=True) | st.none()) for s in g["names"]}
    return {
        "g": g, "kinds": kinds, "strategy": draw(st.sampled_from(["sequential", "parallel", "hierarchical", "hierarchical"])),
        "xs": draw(XS), "form": draw(st.sampled_from(["module", "decorator"])),
    }


@R.facet("coordination", coordinated(), quick=120, thorough=6000, weight=4, secs=70)
def _(c):
    from wax.flax.core.advanced_state_patterns import HierarchicalStateMachine, streaming_state_machine
    from wax.flax.core.transform import flax_transform_with_state

    names, deps, kinds = c["g"]["names"], c["g"]["deps"], c["kinds"]
    ms = {s: mod("cell", float(i + 1)) if kinds[s] is None else mod("dict", float(i + 1), tuple(kinds[s])) for i, s in enumerate(names)}
    if c["form"] == "module":
        f = flax_transform_with_state(HierarchicalStateMachine(state_modules=ms, dependencies=deps, coordination_strategy=c["strategy"]))
    else:
        f = streaming_state_machine(ms, deps, c["strategy"])(lambda outputs, x: {"seen": outputs, "x": x})
    depth = {}
    for s in topological(names, deps):
        depth[s] = 1 + max([depth[d] for d in deps.get(s, [])], default=-1)
    p, s = f.init(key(), jnp.asarray(float(c["xs"][0])))
    step = jax.jit(lambda s, x: f.apply(p, s, None, x))
    influenced = False
    for t in range(1, len(c["xs"])):
        x = float(c["xs"][t])
        own = {}
        for i, q in enumerate(names):
            b = (i + 1) * (t + 1.0)
            own[q] = b + x if kinds[q] is None else {v: b + (j + 1) * x for j, v in enumerate(kinds[q])}
        want = own
        if c["strategy"] == "hierarchical":
            want = {}
            # from the top level down, states of one level as registered
            for q in sorted(names, key=lambda q: depth[q]):
                out = own[q]
                for h in sorted(names, key=lambda q: depth[q]):
                    if depth[h] < depth[q] and isinstance(out, dict) and isinstance(want[h], dict):
                        influenced = influenced or bool(set(out) & set(want[h]))
                        out = {v: 0.9 * out[v] + 0.1 * want[h][v] if v in want[h] else out[v] for v in out}
                want[q] = out
        y, s = step(s, jnp.asarray(x))
        if c["form"] == "decorator":
            assert float(y["x"]) == x
            y = y["seen"]
        assert set(y) == set(names), f"states {set(y)}"
        f32 = lambda v: {k: f32(w) for k, w in v.items()} if isinstance(v, dict) else np.float32(v)
        check_seq({q: dict(y[q]) if kinds[q] else y[q] for q in names}, f32({q: want[q] for q in names}), f"step {t}")
    co = [v for k, v in jax.tree_util.tree_leaves_with_path(plain(s)) if "last_updates" in jax.tree_util.keystr(k)]
    assert len(co) == 1 and np.array_equal(np.asarray(co[0]), np.full(len(names), len(c["xs"]))), f"update counters {co}"
    if c["strategy"] == "hierarchical":
        return "influence of a higher level" if influenced else None
    return "several states" if len(names) > 1 else None


# ------------------------------------------------------------------ compositions


@R.facet(
    "compositions",
    st.fixed_dictionaries({
        "outs": st.lists(st.sampled_from(["number", "number", "u", "v", "influence"]), min_size=1, max_size=5)
        | st.lists(st.just("number"), min_size=11, max_size=13),
        "strategy": st.sampled_from(["pipeline", "pipeline", "parallel", "hierarchical"]),
        "form": st.sampled_from(["module", "decorator"]),
        "names": st.permutations(NAMES),
        "dict_in": st.booleans(),
        "xs": XS,
    }),
    quick=120, thorough=6000, weight=4, secs=70,
)
def _(c):
    from wax.flax.core.advanced_state_patterns import CompositeStateManager, streaming_compose_states
    from wax.flax.core.transform import flax_transform_with_state

    n = len(c["outs"])
    stages = [mod("stage", float(i + 1), o) for i, o in enumerate(c["outs"])]
    if c["form"] == "module" and n <= len(NAMES):
        names = c["names"][:n]
        f = flax_transform_with_state(CompositeStateManager(state_patterns=dict(zip(names, stages)), composition_strategy=c["strategy"]))
        deco = False
    else:
        names = [f"pattern_{i}" for i in range(n)]
        f = streaming_compose_states(*stages, strategy=c["strategy"])(lambda out, x: {"out": out, "x": x})
        deco = True
    wrap = (lambda v: {"w": jnp.asarray(v), "k": jnp.asarray(1.0)}) if c["dict_in"] else (lambda v: jnp.asarray(v))
    p, s = f.init(key(), wrap(float(c["xs"][0])))
    step = jax.jit(lambda s, x: f.apply(p, s, None, x))
    fed = False
    for t in range(1, len(c["xs"])):
        x = float(c["xs"][t])
        data = {"w": x, "k": 1.0} if c["dict_in"] else x
        want = {}
        for i, (q, o) in enumerate(zip(names, c["outs"])):
            v = sum(data.values()) if isinstance(data, dict) else data
            y = 0.5 * v + (i + 1) * (t + 1.0)
            want[q] = y if o == "number" else {o: y}
            if c["strategy"] == "pipeline":
                fed = fed or i + 1 < n
                data = {**data, **want[q]} if isinstance(want[q], dict) and isinstance(data, dict) else want[q]
            elif c["strategy"] == "hierarchical" and o == "influence":
                fed = fed or i + 1 < n
                data = y
        y, s = step(s, wrap(x))
        y = y["out"] if deco else y
        assert set(y) == set(names)
        f32 = lambda v: {k: f32(w) for k, w in v.items()} if isinstance(v, dict) else np.float32(v)
        check_seq({q: dict(y[q]) if isinstance(want[q], dict) else y[q] for q in names}, f32(want), f"step {t}")
    if c["strategy"] == "parallel":
        return "several stages" if n > 1 else None
    return "a stage fed with an earlier output" if fed else None


# ------------------------------------------------------------------ bounded history of states


@R.facet(
    "bounded_history",
    st.fixed_dictionaries({
        "max": st.integers(1, 6),
        "width": st.integers(1, 6),
        "kind": st.sampled_from(["array", "dict", "scalar"]),
        "xs": st.lists(st.tuples(st.lists(st.integers(-8, 8), min_size=6, max_size=6), st.booleans()), min_size=2, max_size=14),
        "top": st.integers(1, 7),
        "seed": st.integers(0, 5),
        "form": st.sampled_from(["module", "module", "decorator"]),
    }),
    quick=100, thorough=4000, weight=5, secs=80,
)
def _(c):
    import flax.linen as nn

    from wax.flax.core.advanced_state_patterns import AttentionBasedStateSelector, streaming_attention_state

    E = 4
    deco = c["form"] == "decorator"
    m = AttentionBasedStateSelector(embed_dim=E, num_heads=2, max_history_length=c["max"])
    k = jax.random.PRNGKey(c["seed"])

    def state(x):
        v = [q / 4 for q in x][: c["width"]]
        if c["kind"] == "dict":
            return {"a": jnp.asarray(v[0]), "b": jnp.asarray(v[1:])} if len(v) > 1 else {"a": jnp.asarray(v)}, v
        if c["kind"] == "scalar":
            return jnp.asarray(v[0]), v[:1]
        return jnp.asarray(v), v

    first_state, _ = state(c["xs"][0][0])
    if deco:
        f = streaming_attention_state(embed_dim=E, num_heads=2, max_history=c["max"])(lambda out, x: out)
        p, s = f.init(k, first_state)
        inner = next(iter(p.values()))
    else:
        var = plain(m.init(k, first_state))
        inner = var["params"]
    W, b = np.asarray(inner["state_encoder"]["kernel"]), np.asarray(inner["state_encoder"]["bias"])
    att = nn.MultiHeadDotProductAttention(num_heads=2, qkv_features=E)
    qW, qb = np.asarray(inner["query_encoder"]["kernel"]), np.asarray(inner["query_encoder"]["bias"])
    past, full, attended = [], False, 0

    def embed(v):
        u = np.zeros(E, np.float32)
        u[: len(v[:E])] = v[:E]
        return u @ W + b

    past.append(embed(state(c["xs"][0][0])[1]))
    for t, (x, use) in enumerate(c["xs"][1:], 1):
        v, flatv = state(x)
        if deco:
            use = True
            out, s = f.apply(p, s, None, v)
        else:
            out, new = m.apply(var, v, use, mutable=["state"])
            var = {**var, **plain(new)}
        e = embed(flatv)
        hist = past[-c["max"] :]
        tree_close(np.asarray(out["original_state"]), e, rtol=1e-4, atol=1e-5, what=f"embedding {t}")
        tree_close(to_np(out["current_state"]), to_np(v), rtol=0, atol=0, what="state handed through")
        if use and len(hist) > 1:
            attended += 1
            tree_close(np.asarray(out["relevant_history"]), np.stack(hist), rtol=1e-4, atol=1e-5, what=f"history at step {t}")
            tree_close(np.asarray(out["attention_weights"]), np.full(len(hist), 1 / len(hist), np.float32), rtol=1e-5, atol=1e-6, what="weights")
            kv = jnp.asarray(np.stack(hist))[None]
            ctx = att.apply({"params": inner["attention"]}, jnp.asarray(e @ qW + qb)[None, None], kv, kv)[0, 0]
            tree_close(np.asarray(out["enhanced_state"]), e + 0.1 * np.asarray(ctx), rtol=1e-3, atol=1e-4, what=f"enhanced state {t}")
        else:
            tree_close(np.asarray(out["enhanced_state"]), e, rtol=1e-4, atol=1e-5, what="state without history")
        past.append(e)
        full = full or len(past) > c["max"]
        if not deco:
            rs, rw = m.apply(var, v, c["top"], method="get_relevant_states", mutable=["state"])[0]
            hist = np.stack(past[-c["max"] :])[: c["top"]]
            tree_close(np.asarray(rs), hist, rtol=1e-4, atol=1e-5, what="selected states")
            assert np.asarray(rw).shape == (len(hist),)
            st_ = var["state"]
            assert int(st_["size"]) == min(len(past), c["max"]), f"size {st_['size']}"
            assert np.asarray(st_["history"]).shape == (c["max"], E)
    return "a full history" if full and attended else None
