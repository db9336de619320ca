"""C21: the second backend's step functions are pure, and a loop, a scan and an unroll are the same thing."""
import functools

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from catalog import fx_apply, program
from common import Untouched, arr, history, same, tree_close
from drivers import fx_mod, fx_prog, nondivergent, plain
from harness import Registry
from run import cached, first, key, rest, to_np

R = Registry(
    "C21",
    rule="at least three observations through a program with a state, so that an error in carrying it shows",
    assumptions=[
        "initialising a module of the second backend runs its first step (pinned by the library's tests): states handed out by init have consumed one observation",
        "compiled and interpreted results may differ by a few units in the last place",
    ],
)


def snapshot(tree):
    return Untouched(tree)


def unchanged(before, what):
    before.check(what)


def alike(a, b, what, data=None):
    """Equal but for rounding; with data: rounding of its squares, which cancel in variances."""
    atol = 1e-5
    if data is not None:
        v = np.abs(np.asarray(data, np.float64))
        m = np.max(v[np.isfinite(v)], initial=0.0)
        atol += 1e-6 * (m + m * m)
    tree_close(to_np(plain(a)), to_np(plain(b)), rtol=2e-4, atol=atol, what=what)


def jumps(ops):
    """a later operation turns a rounding error into another value"""
    return any(o[0] in ("changed", "pct") for o in ops[1:])


def stack(outs):
    return jax.tree_util.tree_map(lambda *v: np.stack([np.asarray(x) for x in v]), *outs)


# ------------------------------------------------------------------ the reference: flax alone


class Direct:
    """plain flax, step by step: no code of wax.flax.core"""

    def __init__(self, m):
        def init(*x):
            v = dict(m.init(key(), *x))
            p = v.pop("params", {})
            return p, plain(v)

        def step(p, s, *x):
            y, s = m.apply({"params": p, **s}, *x, mutable=True)
            s = dict(s)
            s.pop("params", None)
            return y, plain(s)

        self.init, self.step = jax.jit(init), jax.jit(step)

    def loop(self, p, s, *xs):
        s, outs = plain(s), []
        for t in range(len(jax.tree_util.tree_leaves(xs)[0])):
            y, s = self.step(p, s, *jax.tree_util.tree_map(lambda a: a[t], xs))
            outs.append(to_np(y))
        return stack(outs), s


FORMS = ["x", "pair", "dict", "kwargs"]


def build(prog, form):
    """a module whose call takes the observation in one of several forms"""
    import flax.linen as nn

    if isinstance(prog, str):
        inner = lambda x: fx_mod(prog)(x)
    else:

        def inner(x):
            outs = []
            for o in prog:
                out, x = fx_apply(o, x)
                outs.append(out)
            return {"outs": tuple(outs), "last": [x]}

    class X(nn.Module):
        @nn.compact
        def __call__(self, x):
            return inner(x)

    class Pair(nn.Module):
        @nn.compact
        def __call__(self, x, w):
            return inner(x), w.sum()

    class Dict(nn.Module):
        @nn.compact
        def __call__(self, d):
            return {"y": inner(d["x"]), "z": (d["w"][0] * 2,)}

    class Kw(nn.Module):
        @nn.compact
        def __call__(self, x, w=None):
            return inner(x), w

    return {"x": X, "pair": Pair, "dict": Dict, "kwargs": Kw}[form]()


def feed(form, x, w):
    return {"x": ((x,), {}), "pair": ((x, w), {}), "dict": (({"x": x, "w": w},), {}), "kwargs": ((x,), {"w": w})}[form]


class Setup:
    def __init__(self, prog, form):
        from wax.flax.core.transform import flax_transform_with_state
        from wax.flax.core.unroll import flax_unroll_transform

        kw = form == "kwargs"
        d = Direct(_KwAdapter(build(prog, form)) if kw else build(prog, form))
        self.direct = d
        f = flax_transform_with_state(build(prog, form))
        self.f = f
        self.unroll = {
            (dyn, skip): flax_unroll_transform(build(prog, form), dynamic=dyn, skip_first=skip)
            for dyn in (True, False)
            for skip in (True, False)
        }
        self.jstep = jax.jit(lambda p, s, a, k: f.apply(p, s, None, *a, **k))
        self.jinit = jax.jit(lambda a, k: f.init(key(), *a, **k))
        self.junroll = {
            skip: jax.jit(lambda p, s, a, k, skip=skip: self.unroll[True, skip].apply(p, s, None, *a, **k))
            for skip in (True, False)
        }


class _KwAdapter:
    """positional view of a module called with keywords"""

    def __init__(self, m):
        self.m = m

    def init(self, k, x, w):
        return self.m.init(k, x, w=w)

    def apply(self, v, x, w, mutable):
        return self.m.apply(v, x, w=w, mutable=mutable)


setup = cached(lambda prog, form: Setup(prog, form), maxsize=64)


@st.composite
def case(draw, lengths=(2, 4, 9, 20), prog=fx_prog):
    return {
        "prog": draw(prog),
        "form": draw(st.sampled_from(FORMS)),
        "xs": draw(history(3, lengths=lengths, nan=True)),
        "skip": draw(st.booleans()),
    }


def inputs(c):
    x = arr(c["xs"])
    w = np.stack([x[:, 0] * 0.5, np.arange(len(x))], axis=1).astype(np.float32)
    return feed(c["form"], jnp.asarray(x), jnp.asarray(np.nan_to_num(w)))


def positional(a, k):
    return a + tuple(k.values())


def tag(c, n):
    return "state carried over %d steps, form %s" % (n, c["form"]) if n >= 3 else None


@R.facet("compiled", case(), quick=150, thorough=6000, weight=6, secs=80)
def _(c):
    s = setup(c["prog"], c["form"])
    a, k = inputs(c)
    n = len(c["xs"])
    p, st0 = s.jinit(*first((a, k)))
    rp, rs = s.direct.init(*first(positional(a, k)))
    alike(p, rp, "params of init")
    alike(st0, rs, "state of init")
    skip = c["skip"]
    xs = rest(positional(a, k)) if skip else positional(a, k)
    if n - skip < 1:
        return None
    want, end = s.direct.loop(rp, rs, *xs)
    if not nondivergent(want):
        return None
    before = snapshot((p, st0, a, k))
    got, fin = s.junroll[skip](p, st0, a, k)
    alike(got, want, "unrolled outputs")
    alike(fin, end, "final state")
    unchanged(before, "arguments of unroll")
    # step by step
    state, outs = st0, []
    for t in range(skip, n):
        b = snapshot(state)
        ta, tk = jax.tree_util.tree_map(lambda v: v[t], (a, k))
        y, nxt = s.jstep(p, state, ta, tk)
        y2, nxt2 = s.jstep(p, state, ta, tk)
        for u, v in zip(jax.tree_util.tree_leaves((y, nxt)), jax.tree_util.tree_leaves((y2, nxt2))):
            same(np.asarray(u), np.asarray(v), "the same call again")
        unchanged(b, "state given to a step")
        outs.append(to_np(y))
        state = nxt
    alike(stack(outs), want, "outputs of single steps")
    alike(state, end, "final state of single steps")
    return tag(c, n)


@R.facet("unroll_function", case(lengths=(2, 4, 9)), quick=50, thorough=2000, weight=5, secs=80)
def _(c):
    """flax_unroll with every combination of given parameters and states"""
    from wax.flax.core.unroll import flax_unroll, flax_unroll_transform

    s = setup(c["prog"], c["form"])
    a, k = inputs(c)
    n = len(c["xs"])
    p, st0 = s.jinit(*first((a, k)))
    # another starting state: the one after some steps of a shifted history
    _, other = s.junroll[False](p, st0, *jax.tree_util.tree_map(lambda v: v[::-1], (a, k)))
    xs = rest(positional(a, k)) if c["skip"] else positional(a, k)
    if n - c["skip"] < 1:
        return None
    kinds = {"none": (None, None), "both": (p, other), "state": (None, other), "params": (p, None)}
    for name, (gp, gs) in kinds.items():
        want, end = s.direct.loop(p, plain(gs if gs is not None else st0), *xs)
        if not nondivergent(want):
            continue
        for final in (True, False):
            if final == (name in ("none", "state")):
                target = build(c["prog"], c["form"])
                opts = {"skip_first": c["skip"]}
            else:
                target, opts = flax_unroll_transform(s.f, skip_first=c["skip"]), {}
            # the key of init is the one given: the modules initialise without randomness
            fun = flax_unroll(target, params=gp, state=gs, return_final_state=final, rng=key(), **opts)
            r = fun(*a, **k)
            got, fin = r if final else (r, None)
            alike(got, want, f"outputs, given: {name}")
            if final:
                alike(fin, end, f"final state, given: {name}")
    return tag(c, n)


@R.facet("interpreted", case(lengths=(2, 3, 5), prog=program(hk=False, max_ops=2)), quick=40, thorough=1500, weight=5, secs=80)
def _(c):
    """interpreted unrolling, interpreted steps"""
    from wax.flax.core.unroll import flax_unroll

    s = setup(c["prog"], c["form"])
    a, k = inputs(c)
    p, st0 = s.jinit(*first((a, k)))
    skip = c["skip"]
    xs = rest(positional(a, k)) if skip else positional(a, k)
    want, end = s.direct.loop(p, st0, *xs)
    if not nondivergent(want) or jumps(c["prog"]):
        return None
    # dictionaries of the caller, with a collection that holds nothing
    p, st0 = plain(p), {**plain(st0), "unused": {}}
    before = snapshot((p, st0, a, k))
    end = {**plain(end), "unused": {}}
    got, fin = s.unroll[False, skip].apply(p, st0, None, *a, **k)
    alike(got, want, "interpreted unroll", c["xs"])
    alike(fin, end, "final state", c["xs"])
    got, fin = flax_unroll(s.f, dynamic=False, skip_first=skip, params=p, state=st0, return_final_state=True)(*a, **k)
    alike(got, want, "flax_unroll(dynamic=False)", c["xs"])
    alike(fin, end, "final state", c["xs"])
    ta, tk = jax.tree_util.tree_map(lambda v: v[int(skip)], (a, k))
    y1, s1 = s.f.apply(p, st0, None, *ta, **tk)
    y2, s2 = s.f.apply(p, st0, None, *ta, **tk)
    for u, v in zip(jax.tree_util.tree_leaves((y1, s1)), jax.tree_util.tree_leaves((y2, s2))):
        same(np.asarray(u), np.asarray(v), "the same call again")
    unchanged(before, "arguments")
    alike(y1, first(want), "one interpreted step", c["xs"])
    return tag(c, len(c["xs"]))


# ------------------------------------------------------------------ streaming functions


STEP_OPS = program(hk=False, max_ops=3)


def function(c):
    """an impure looking streaming function"""
    from wax.flax.core.streaming_transforms import update_on_event

    ops, gate = c["ops"], c["gate"]

    def body(x, gain=1.0):
        y, outs = x, []
        for o in ops:
            out, y = fx_apply(o, y)
            outs.append(out)
        return {"outs": outs, "last": y * gain, "x": x}

    if gate is None:
        return body
    init = jnp.nan if gate[1] == "nan" else gate[1]
    return update_on_event(event_fn=lambda x, gain=1.0: x[0] > gate[0], initial_output_value=init)(body)


class Function:
    def __init__(self, ops, gate):
        import flax.linen as nn

        from wax.flax.core.streaming_transforms import streaming_transform_with_state

        c = {"ops": ops, "gate": gate}
        fun = function(c)

        class Mod(nn.Module):
            @nn.compact
            def __call__(self, x, gain):
                return fun(x, gain=gain)

        t = streaming_transform_with_state(function(c))
        self.t = t
        self.direct = Direct(Mod())
        self.init = jax.jit(lambda x, g: t.init(key(), x, gain=g))
        self.step = jax.jit(lambda p, s, x, g: t.apply(p, s, None, x, gain=g))
        self.scan = jax.jit(lambda p, s, x, g: t.scan(p, s, None, x, gain=g))
        self.lanes = jax.jit(jax.vmap(lambda s, x, g: t.apply({}, s, None, x, gain=g), in_axes=(0, 0, None)))


fn_setup = cached(lambda ops, gate: Function(ops, gate), maxsize=64)


@R.facet(
    "streaming_functions",
    st.fixed_dictionaries({
        "ops": STEP_OPS,
        "gate": st.none() | st.none() | st.tuples(st.sampled_from([0.0, 2.0]), st.sampled_from(["nan", 0.0])),
        "xs": history(3, lengths=(2, 5, 12), nan=True),
        "gain": st.sampled_from([1.0, -0.5]),
    }),
    quick=120, thorough=4000, weight=5, secs=80,
)
def _(c):
    s = fn_setup(c["ops"], c["gate"])
    xs, g = jnp.asarray(arr(c["xs"])), jnp.asarray(c["gain"], jnp.float32)
    gs = jnp.full((len(xs),), g)
    if any(o[0] == "changed" for o in c["ops"]) and c["gate"]:
        return None  # a boolean output cannot hold a NaN: not a stream with an undefined start
    p, st0 = s.init(xs[0], g)
    rp, rs = s.direct.init(xs[0], g)
    want, end = s.direct.loop(rp, rs, xs, gs)
    if not nondivergent(want):
        return None
    names = lambda t: sorted(str(jax.tree_util.keystr(q)).split("']['", 2)[-1] for q, _ in jax.tree_util.tree_leaves_with_path(plain(t)))
    before = snapshot((p, st0, xs))
    got, fin = s.scan(p, st0, xs, g)
    alike(got, want, "outputs of the scan", c["xs"])
    flat = lambda t: [np.asarray(v, np.float64) for v in jax.tree_util.tree_leaves(plain(t))]
    alike(flat(fin), flat(end), "final state", c["xs"])
    assert jax.tree_util.tree_structure(plain(fin)) == jax.tree_util.tree_structure(plain(st0)), "layout of the state"
    assert names(fin) == names(end), "names of the state"
    state, outs = st0, []
    for t in range(len(xs)):
        y, state = s.step(p, state, xs[t], g)
        outs.append(to_np(y))
    alike(stack(outs), want, "outputs of the steps", c["xs"])
    alike(flat(state), flat(end), "final state of the steps", c["xs"])
    # an older state again, after everything else
    y, _ = s.step(p, st0, xs[0], g)
    for u, v in zip(jax.tree_util.tree_leaves(y), jax.tree_util.tree_leaves(outs[0])):
        same(np.asarray(u), v, "the first step again")
    unchanged(before, "arguments")
    # interpreted step
    y, s1 = s.t.apply(p, st0, None, xs[0], gain=g)
    if not jumps(c["ops"]):
        alike(y, outs[0], "interpreted step", c["xs"])
    return "state carried over %d steps" % len(xs) if len(xs) >= 3 else None


@R.facet(
    "lanes",
    st.fixed_dictionaries({
        "prog": program(hk=False, max_ops=2),
        "xs": st.integers(2, 6).flatmap(lambda T: history(6, lengths=(T,), nan=True)),
    }),
    quick=40, thorough=1500, weight=3, secs=60,
)
def _(c):
    """mapping a step over independent streams is running them one by one"""
    s = setup(c["prog"], "x")
    x = arr(c["xs"])
    lanes = jnp.asarray(np.stack([x[:, :3], x[:, 3:]], axis=1))  # (T, 2, 3)
    ps, ss = zip(*[s.jinit((lanes[0, i],), {}) for i in range(2)])
    p = ps[0]
    state = jax.tree_util.tree_map(lambda *v: jnp.stack(v), *ss)
    wants = [s.direct.loop(p, ss[i], lanes[:, i]) for i in range(2)]
    if not all(nondivergent(w[0]) for w in wants):
        return None
    both = vmapped(c["prog"])
    outs = []
    for t in range(len(x)):
        y, state = both(p, state, lanes[t])
        outs.append(to_np(y))
    outs = stack(outs)
    for i in range(2):
        alike(jax.tree_util.tree_map(lambda v: v[:, i], outs), wants[i][0], f"stream {i}")
        alike(jax.tree_util.tree_map(lambda v: v[i], plain(state)), wants[i][1], f"final state {i}")
    return "two streams, %d steps" % len(x) if len(x) >= 3 else None


@functools.lru_cache(maxsize=64)
def _vm(text):
    import json

    f = setup(json.loads(text), "x").f
    return jax.jit(jax.vmap(lambda p, s, x: f.apply(p, s, None, x), in_axes=(None, 0, 0)))


def vmapped(prog):
    import json

    return _vm(json.dumps(prog))


# ------------------------------------------------------------------ random keys


class Noisy:
    def __init__(self, com, static):
        import flax.linen as nn

        from wax.flax.core.transform import flax_transform_with_state
        from wax.flax.core.unroll import flax_unroll_transform
        from wax.flax.modules import EWMA

        class Noise(nn.Module):
            noisy: bool = True

            @nn.compact
            def __call__(self, x):
                e = jax.random.uniform(self.make_rng("default"), x.shape) if self.noisy else 0.0
                return EWMA(com=com)(x + e), e

        self.f = flax_transform_with_state(Noise())
        self.u = flax_unroll_transform(Noise(), dynamic=not static)
        self.run = jax.jit(self.u.apply)


        from wax.flax.core.streaming_transforms import streaming_transform_with_state

        self.t = streaming_transform_with_state(lambda x: Noise()(x))
        self.scan = jax.jit(self.t.scan)
        plain_ = streaming_transform_with_state(lambda x: Noise(noisy=False)(x))
        self.smooth = jax.jit(lambda p, s, x: plain_.scan(p, s, None, x))


noisy = cached(lambda com, static: Noisy(com, static))


@R.facet(
    "random_keys",
    st.fixed_dictionaries({"com": st.sampled_from([1.0, 3.0]), "static": st.booleans(), "seed": st.integers(0, 1000), "T": st.integers(2, 6)}),
    quick=60, thorough=1500, weight=2, secs=50,
)
def _(c):
    m = noisy(c["com"], c["static"])
    other = noisy(c["com"], not c["static"])
    k = jax.random.PRNGKey(c["seed"])
    xs = jnp.arange(c["T"] * 2.0).reshape(c["T"], 2)
    p, s = m.u.init(k, xs)
    p2, s2 = m.u.init(k, xs)
    for u, v in zip(jax.tree_util.tree_leaves((p, s)), jax.tree_util.tree_leaves((p2, s2))):
        same(np.asarray(u), np.asarray(v), "init again")
    (y, e), fin = m.run(p, s, k, xs)
    (y2, e2), fin2 = m.run(p, s, k, xs)
    same(np.asarray(y), np.asarray(y2), "the same key again")
    (y3, e3), fin3 = other.run(p, s, k, xs)
    alike((y3, e3, fin3), (y, e, fin), "compiled and interpreted")
    e = np.asarray(e)
    assert len(np.unique(e)) == e.size, "noise repeated over time"
    (y4, e4), _ = m.run(p, s, jax.random.PRNGKey(c["seed"] + 1), xs)
    assert not np.array_equal(np.asarray(e4), e), "the key is not used"
    # a single step is a function of its key
    a1 = m.f.apply(p, s, k, xs[0])[0][1]
    a2 = m.f.apply(p, s, k, xs[0])[0][1]
    same(np.asarray(a1), np.asarray(a2), "one step, same key")
    # the scan of a streaming transform
    (q, t), xs2 = m.t.init(k, xs[0]), xs
    (y5, e5), fin5 = m.scan(q, t, k, xs2)
    (y6, e6), fin6 = m.scan(q, t, k, xs2)
    alike((y6, e6, fin6), (y5, e5, fin5), "scan with the same key again")
    e5 = np.asarray(e5)
    assert len(np.unique(e5)) == e5.size, "noise repeated over the steps of a scan"
    (_, e7), _ = m.scan(q, t, jax.random.PRNGKey(c["seed"] + 1), xs2)
    assert not np.array_equal(np.asarray(e7), e5), "the key of a scan is not used"
    (y8, _), fin8 = m.smooth(q, t, xs2 + e5)
    alike((y5, fin5), (y8, fin8), "the scan of the noisy sequence")
    return "random module over %d steps" % c["T"] if c["T"] >= 3 else None


# ------------------------------------------------------------------ helpers around steps


@R.facet("helpers", case(lengths=(3, 6), prog=program(hk=False, max_ops=1)), quick=40, thorough=1500, weight=4, secs=60)
def _(c):
    import catalog
    from flax.core import freeze
    from wax.flax.core.state_utils import apply_with_state, create_streaming_module_wrapper, make_streaming_compatible
    from wax.flax.core.transform import combine_variables, split_variables
    from wax.flax.core.unroll import create_flax_module_factory, flax_unroll_transform

    o = c["prog"][0]
    xs = jnp.asarray(arr(c["xs"]))
    args = {"ewmcov": lambda x: (x, x), "counter": lambda x: (), "ohlc": lambda x: (x, x[0] > 1.0)}.get(o[0], lambda x: (x,))
    make = lambda: catalog.fx_module(o)
    m = make()
    a0 = args(xs[0])
    v = m.init(key(), *a0)
    before = snapshot(v)
    d = Direct(m)
    rp, rs = d.init(*a0)
    wants, rstate = [], rs
    for x in xs:
        y, rstate = d.step(rp, rstate, *args(x))
        wants.append(to_np(y))
    # splitting and combining
    p, s = split_variables(v)
    alike(p, rp, "split params")
    alike(s, rs, "split state")
    assert "params" not in s
    alike(combine_variables(p, s), {"params": rp, **rs}, "combined")
    # apply_with_state
    var = plain(v)
    for x, w in zip(xs, wants):
        y, new = apply_with_state(m, var, *args(x))
        alike(y, w, "apply_with_state")
        var = {**var, **plain(new)}
    alike({k: q for k, q in var.items() if k != "params"}, rstate, "state of apply_with_state")
    unchanged(before, "variables")
    # wrapped modules; the wrapper adds one level of names
    kw = {f: getattr(m, f) for f in m.__dataclass_fields__ if f not in ("parent", "name")}
    for f, nested in ((make_streaming_compatible(make()), True), (create_streaming_module_wrapper(type(m))(**kw), False)):
        p, s = f.init(key(), *a0)
        for x, w in zip(xs, wants):
            y, s = f.apply(p, s, None, *args(x))
            alike(y, w, "wrapped module")
        flat = lambda t: [np.asarray(q, np.float64) for q in jax.tree_util.tree_leaves(plain(t))]
        tree_close(flat(s), flat(rstate), rtol=2e-4, atol=1e-5, what="state of the wrapped module")
    u = flax_unroll_transform(create_flax_module_factory(type(m), **kw))
    seqs = jax.tree_util.tree_map(lambda *q: jnp.stack(q), *[args(x) for x in xs])
    if seqs != ():
        y, s = u.apply(rp, freeze(plain(rs)), None, *seqs)
        alike(y, stack(wants), "module factory")
        alike(s, rstate, "final state")
    return "stateful module over %d steps" % len(xs) if jax.tree_util.tree_leaves(rs) else None


# ------------------------------------------------------------------ compositions shipped with the library


def ewma_ref(x, alpha):
    """adjusted exponential average of a history without gaps"""
    out, num, den = [], 0.0, 0.0
    for v in np.asarray(x, np.float64):
        num = v + (1 - alpha) * num
        den = 1 + (1 - alpha) * den
        out.append(num / den)
    return np.array(out)


def macd(x, fast, slow, signal):
    f, s = ewma_ref(x, 2 / (fast + 1)), ewma_ref(x, 2 / (slow + 1))
    m = f - s
    g = ewma_ref(m, 2 / (signal + 1))
    return {"price": x, "macd": m, "signal": g, "histogram": m - g, "fast_ema": f, "slow_ema": s}


def bollinger(x, window, k):
    center = ewma_ref(x, 2 / (window + 1))
    std = np.array([np.std(x[max(0, t - window + 1) : t + 1]) if t else 0.0 for t in range(len(x))])
    up, lo = center + k * std, center - k * std
    width = up - lo
    pos = np.where(width > 1e-8, (x - lo) / np.where(width > 1e-8, width, 1), 0.5)
    return {"price": x, "upper_band": up, "lower_band": lo, "center_line": center, "band_position": pos, "band_width": width}


def breakout(x, vol):
    out = []
    last = None
    for t in range(len(x)):
        if vol[t] > 1000:
            w = np.concatenate([np.full(20, x[0]), x[: t + 1]])[-20:]
            volat = np.std(np.diff(w, prepend=w[0]))
            mom = x[t] - w.mean()
            last = {"price": x[t], "volume": vol[t], "momentum": mom, "volatility": volat}
        out.append(last or {k: np.nan for k in ("price", "volume", "momentum", "volatility")})
    return {k: np.array([o[k] for o in out]) for k in out[0]}


@R.facet(
    "shipped_compositions",
    st.fixed_dictionaries({
        "which": st.sampled_from(["macd", "bollinger", "breakout", "system", "learner", "ensemble"]),
        "steps": st.lists(st.integers(-20, 20), min_size=2, max_size=14),
        "vol": st.lists(st.sampled_from([500.0, 900.0, 1000.0, 1100.0, 1500.0]), min_size=14, max_size=14),
        "per": st.sampled_from([(12, 26, 9), (3, 6, 2), (2, 2, 1)]),
        "window": st.sampled_from([2, 3, 20]),
    }),
    quick=60, thorough=2500, weight=4, secs=80,
)
def _(c):
    """every history is fed to init as its first observation and to the steps from the second on"""
    from wax.flax.examples import transform_compositions as tc

    x = 100.0 + np.cumsum(np.array(c["steps"])) * 0.25
    vol = np.array(c["vol"][: len(x)])
    fx, fv = jnp.asarray(x, jnp.float32), jnp.asarray(vol, jnp.float32)
    w = c["which"]
    if w == "macd":
        f, args, kw, want = tc.macd_indicator, (fx,), dict(zip(("fast_period", "slow_period", "signal_period"), c["per"])), macd(x, *c["per"])
    elif w == "bollinger":
        f, args, kw, want = tc.bollinger_bands, (fx,), {"window": c["window"], "num_std": 1.5}, bollinger(x, c["window"], 1.5)
    elif w == "breakout":
        f, args, kw, want = tc.volume_breakout_detector, (fx, fv), {}, breakout(x, vol)
    elif w == "system":
        fast, slow, center = (ewma_ref(x, 2 / (n + 1)) for n in (12, 26, 20))
        mom = np.where(vol > 1200, ewma_ref(x, 0.3), ewma_ref(x, 0.1))
        volat = np.array([np.std(x[max(0, t - 19) : t + 1]) for t in range(len(x))])
        pos = (x - center) / (volat + 1e-8)
        want = {"momentum_signal": np.tanh(mom / x - 1), "macd_signal": np.tanh((fast - slow) * 10), "is_high_volume": vol > 1200,
                "volatility": volat / center, "technical_signal": np.where(volat > 1e-3, np.tanh(pos - 0.5), np.nan)}
        f, args, kw = tc.complete_trading_system, (fx, fv), {}
    elif w == "learner":
        y = x[::-1] / 100
        pred = ewma_ref(x / 100, 0.1) * 1.1
        f, args, kw, want = tc.adaptive_price_predictor, (fx / 100, jnp.asarray(y, jnp.float32)), {}, {"pred": pred}
    else:
        a, b = ewma_ref(x, 0.2), ewma_ref(vol, 0.15)
        want = {"price_component": a * 1.05, "volume_component": b * 0.001, "price_signal": a, "volume_signal": b}
        f, args, kw = tc.ensemble_predictor, (fx, fv, fx), {}
    at = lambda t: jax.tree_util.tree_map(lambda v: v[t], args)
    p, s = f.init(key(), *at(0), **kw)
    outs = []
    for t in range(1, len(x)):
        y, s2 = f.apply(p, s, None, *at(t), **kw)
        s = s2
        if w == "learner":
            y = {"pred": y[1], "loss": y[0]}
        if w == "ensemble":
            y = y[2]
        outs.append(to_np({k: y[k] for k in want}))
    if not outs:
        return None
    got = stack(outs)
    for k in want:
        e = np.asarray(want[k][1:], np.float64)
        g = np.asarray(got[k], np.float64)
        if k == "band_position":  # a ratio of two possibly tiny numbers
            ok = want["band_width"][1:] > 0.05
            e, g = e[ok], g[ok]
        if k == "technical_signal":
            ok = ~np.isnan(e)
            e, g = e[ok], g[ok]
        tol = 2e-3 if k in ("technical_signal", "macd_signal", "band_position") else 3e-4
        assert np.allclose(g, e, rtol=tol, atol=tol, equal_nan=True), f"{w}: {k}: {g} expected {e}"
    return f"{w} over {len(x)} observations" if len(x) >= 3 else None
