"""C16: event-gated modules."""
import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import catalog
from common import arr, history, long_case, long_data, long_events, tree_close
from harness import Registry
from run import cached, fx_scan, hk_scan, to_np

R = Registry(
    "C16",
    rule="both event steps and steps without event, with at least one non-event step after an event",
    assumptions=[
        "modules whose outputs are all floating point when the initial value is NaN",
        "the second backend gates the output only; its inner state is documented to be updated always",
    ],
)
OPS = ["ewma", "ewmvar", "buffer", "lag", "diff", "pct", "rolling", "ffill", "fill", "ewmcov", "ohlc", "arma", "counter"]
INIT = st.sampled_from(["nan", 0.0, -1.0])


def gated_program(ops):
    return hk.to_module(catalog.hk_program(ops))


NAMES = [("one", "two"), ("gate", "gate_long"), ("gate_long", "gate"), (None, None), ("gated", "gate"), ("m", "m_1")]


def build_hk(ops, initial, form, names=("one", "two"), early=False):
    """the gated module"""
    import wax.modules as m

    init = catalog._f(initial)

    def single(ev, ev2, x):
        return m.UpdateOnEvent(gated_program(ops)(), initial_output_value=init)(ev, x)

    def two(ev, ev2, x):
        # two gates with their own events beside an ungated copy
        first = gated_program(ops)(name=names[0])
        if early:  # both modules exist before the first gate is used
            second = gated_program(ops)(name=names[1])
        a = m.UpdateOnEvent(first, initial_output_value=init)(ev, x)
        if not early:
            second = gated_program(ops)(name=names[1])
        b = m.UpdateOnEvent(second, initial_output_value=init)(ev2, x)
        return {"a": a, "b": b, "bare": gated_program(ops)(name="bare")(x)}

    def library(ev, ev2, x):
        """two library modules of the same class, gated directly; their outer module is gated by nothing"""
        e1 = m.EWMA(com=1.5, name=names[0])
        e2 = m.EWMA(com=4.0, name=names[1])
        a = m.UpdateOnEvent(e1, initial_output_value=init)(ev, x)
        b = m.UpdateOnEvent(e2, initial_output_value=init)(ev2, x)
        return {"a": a, "b": b, "bare": m.EWMA(com=1.5, name="bare")(x)}

    class Outer(hk.Module):
        """a module that keeps its parts as attributes, or receives one built outside"""

        def __init__(self, inside, name=None):
            super().__init__(name=name)
            self.inside, self.own = inside, (m.EWMA(com=4.0) if early else None)

        def __call__(self, x):
            own = self.own if early else m.EWMA(com=4.0)
            return {"in": self.inside(x), "own": own(x)}

    def parts(ev, ev2, x):
        mod = Outer(m.EWMA(com=1.5, name=names[0]), name=names[1])
        return m.UpdateOnEvent(mod, initial_output_value=init)(ev, x)

    def sequential(ev, ev2, x):
        """a sequence of modules that were all built outside of the gated one"""
        mod = hk.Sequential([m.EWMA(com=1.5), lambda v: v + 0, m.Lag(1), m.EWMA(com=4.0, name=names[1])], name=names[0])
        return m.UpdateOnEvent(mod, initial_output_value=init)(ev, x)

    def nested(ev, ev2, x):
        inner = hk.to_module(
            lambda e, v: m.UpdateOnEvent(gated_program(ops)(), initial_output_value=init)(e, v)
        )(name="inner")
        return m.UpdateOnEvent(inner, initial_output_value=init)(ev, ev2, x)

    def kwargs(ev, ev2, x):
        mod = hk.to_module(lambda u, v: catalog.hk_program(ops)(u * 0 + v))(name="kw")
        return m.UpdateOnEvent(mod, initial_output_value=init)(ev, x, v=x)

    return hk_scan({"single": single, "two": two, "nested": nested, "kwargs": kwargs, "library": library, "parts": parts, "sequential": sequential}[form])


def build_bare(ops):
    return hk_scan(lambda x: gated_program(ops)()(x))


gated = cached(build_hk)
bare = cached(build_bare)


def reference(run, x, ev, initial, pad):
    """bare module over the inputs of the events, its outputs held in between"""
    at = np.flatnonzero(ev)
    # pad to the length of the history so that compiled code is reused
    sel = np.concatenate([x[at], np.zeros((pad - len(at),) + x.shape[1:], x.dtype)])
    ys = to_np(run(sel)[0])
    idx = np.cumsum(ev) - 1

    def hold(a):
        out = np.full((len(x),) + a.shape[1:], catalog._f(initial), a.dtype)
        for t in range(len(x)):
            if idx[t] >= 0:
                out[t] = a[idx[t]]
        return out

    return jax.tree_util.tree_map(hold, ys)


@st.composite
def events(draw, T):
    p = draw(st.sampled_from([0, 1, 2, 5]))
    if p == 0:
        return [True] * T if draw(st.booleans()) else [False] * T
    return [draw(st.integers(0, p)) == 0 for _ in range(T)]


def floating(ops):
    return not any(o[0] in ("counter",) for o in ops)


@st.composite
def case(draw, forms):
    x = draw(history(3, lengths=[1, 4, 10, 10, 20]))
    ops = draw(st.lists(catalog.op(OPS), min_size=1, max_size=2))
    initial = draw(INIT)
    if not floating(ops) and initial == "nan":
        initial = 0.0
    return {
        "ops": ops,
        "initial": initial,
        "form": draw(st.sampled_from(forms)),
        "x": x,
        "ev": draw(events(len(x))),
        "ev2": draw(events(len(x))),
        "names": draw(st.sampled_from(NAMES)),
        "early": draw(st.booleans()),
    }


def why(*evs):
    for ev in evs:
        e = np.asarray(ev, int)
        if (np.diff(e) == -1).any():
            return "held output between events"
    return None


def load(c):
    return arr(c["x"]), np.array(c["ev"]), np.array(c["ev2"])


TOL = dict(rtol=1e-4, atol=1e-3)


def atol(x):
    s = np.abs(np.nan_to_num(x)).max(initial=1.0)
    return dict(rtol=1e-4, atol=1e-4 * max(1.0, s * s))


@R.facet("gate", case(["single", "kwargs"]), quick=240, thorough=8000, weight=4, secs=80)
def _(c):
    x, ev, ev2 = load(c)
    y = to_np(gated(c["ops"], c["initial"], c["form"])(ev, ev2, x)[0])
    e = reference(bare(c["ops"]), x, ev, c["initial"], len(x))
    tree_close(y, e, what="gated output", **atol(x))
    return why(ev)


@R.facet("two_gates", case(["two"]), quick=120, thorough=4000, weight=3, secs=80)
def _(c):
    x, ev, ev2 = load(c)
    y = to_np(gated(c["ops"], c["initial"], c["form"], c["names"], c["early"])(ev, ev2, x)[0])
    run = bare(c["ops"])
    tree_close(y["bare"], to_np(run(x)[0]), what="ungated copy", **atol(x))
    for k, e in (("a", ev), ("b", ev2)):
        tree_close(y[k], reference(run, x, e, c["initial"], len(x)), what=f"gate {k}", **atol(x))
    return why(ev, ev2)


def build_ewma(com):
    import wax.modules as m

    if com == "sequence":
        return hk_scan(lambda x: m.EWMA(com=4.0)(m.Lag(1)(m.EWMA(com=1.5)(x))))

    return hk_scan(lambda x: m.EWMA(com=com)(x))


ewma = cached(build_ewma)


@st.composite
def library_case(draw):
    c = draw(case(["library", "parts", "sequential"]))
    c["ops"] = []
    return c


@R.facet("library_modules", library_case(), quick=160, thorough=4000, weight=2, secs=60)
def _(c):
    """library modules of one class side by side, and a module made of parts"""
    x, ev, ev2 = load(c)
    y = to_np(gated([], c["initial"], c["form"], c["names"], c["early"])(ev, ev2, x)[0])
    pad = len(x)
    if c["form"] == "library":
        tree_close(y["bare"], to_np(ewma(1.5)(x)[0]), what="ungated copy", **atol(x))
        want = {"a": (1.5, ev), "b": (4.0, ev2)}
    elif c["form"] == "sequential":
        want, y = {"all": ("sequence", ev)}, {"all": y}
    else:
        want = {"in": (1.5, ev), "own": (4.0, ev)}
    for k, (com, e) in want.items():
        tree_close(y[k], reference(ewma(com), x, e, c["initial"], pad), what=f"gate {k}", **atol(x))
    return why(ev, ev2)


@R.facet("nested_gates", case(["nested"]), quick=120, thorough=4000, weight=3, secs=80)
def _(c):
    """a gate inside a gate advances only when both events are raised"""
    x, ev, ev2 = load(c)
    y = to_np(gated(c["ops"], c["initial"], c["form"])(ev, ev2, x)[0])
    # inner gate sees only the outer events; the outer one holds its output
    inner_ev = ev2[ev]
    run = bare(c["ops"])
    xs = x[ev]
    pad = np.concatenate([xs, np.zeros((len(x) - len(xs),) + x.shape[1:], x.dtype)])
    pe = np.concatenate([inner_ev, np.zeros(len(x) - len(xs), bool)])
    mid = reference(run, pad, pe, c["initial"], len(x))
    idx = np.cumsum(ev) - 1

    def hold(a):
        out = np.full(a.shape, catalog._f(c["initial"]), a.dtype)
        for t in range(len(x)):
            if idx[t] >= 0:
                out[t] = a[idx[t]]
        return out

    tree_close(y, jax.tree_util.tree_map(hold, mid), what="nested gate", **atol(x))
    return why(ev, ev2)


FX = ["ewma", "ewmvar", "buffer", "lag", "diff", "pct", "rolling", "ffill", "fill", "ohlc", "counter"]


def build_fx(ops, initial, form):
    from flax import linen as nn

    from wax.flax.core.streaming_transforms import ConditionalComputation, update_on_event

    init = catalog._f(initial)
    if form == "module":

        class M(nn.Module):
            @nn.compact
            def __call__(self, ev, x):
                prog = catalog.fx_program(ops)
                return ConditionalComputation(
                    update_fn=lambda e, v: prog(v), event_fn=lambda e, v: e, initial_output_value=init
                )(ev, x)

    elif form == "decorator":

        class M(nn.Module):
            @nn.compact
            def __call__(self, ev, x):
                prog = catalog.fx_program(ops)
                return update_on_event(event_fn=lambda e, v: e, initial_output_value=init)(lambda e, v: prog(v))(ev, x)

    elif form == "always":

        class M(nn.Module):
            @nn.compact
            def __call__(self, ev, x):
                prog = catalog.fx_program(ops)
                return update_on_event(initial_output_value=init)(lambda e, v: prog(v))(ev, x)

    else:

        class M(nn.Module):
            @nn.compact
            def __call__(self, ev, x):
                return catalog.fx_program(ops)(x)

    return fx_scan(M)


fx = cached(build_fx)


@st.composite
def fx_case(draw):
    x = draw(history(3, lengths=[1, 4, 10, 10, 20]))
    ops = draw(st.lists(catalog.op(FX, hk=False), min_size=1, max_size=2))
    initial = draw(INIT)
    if initial == "nan" and not floating(ops):
        initial = 0.0
    return {
        "ops": ops,
        "initial": initial,
        "form": draw(st.sampled_from(["module", "module", "decorator", "always"])),
        "x": x,
        "ev": draw(events(len(x))),
    }


@R.facet("second_backend", fx_case(), quick=200, thorough=6000, weight=4, secs=80)
def _(c):
    x, ev = arr(c["x"]), np.array(c["ev"])
    y = to_np(fx(c["ops"], c["initial"], c["form"])(ev, x)[0])
    e = to_np(fx(c["ops"], c["initial"], "bare")(ev, x)[0])
    if c["form"] == "always":
        tree_close(y, e, what="no event function", **atol(x))
        return None

    def hold(a):
        out = np.full(a.shape, catalog._f(c["initial"]), a.dtype)
        for t in range(len(x)):
            if ev[t]:
                out[t] = a[t]
            elif t:
                out[t] = out[t - 1]
        return out

    tree_close(y, jax.tree_util.tree_map(hold, e), what="gated output", **atol(x))
    return why(ev)


def build_x_event(thr):
    """the event is computed from the observation itself, through the public transform"""
    from wax.flax.core.streaming_transforms import streaming_transform_with_state, update_on_event
    from wax.flax.modules import EWMA

    @streaming_transform_with_state
    @update_on_event(event_fn=lambda x: jnp.sum(x) > thr)
    def f(x):
        return EWMA(alpha=0.5)(x)

    @streaming_transform_with_state
    def g(x):
        return EWMA(alpha=0.5)(x)

    @jax.jit
    def run(xs):
        p, s = f.init(jax.random.PRNGKey(0), xs[0])
        q, r = g.init(jax.random.PRNGKey(0), xs[0])
        return f.scan(p, s, None, xs)[0], g.scan(q, r, None, xs)[0]

    return run


x_event = cached(build_x_event)


@R.facet(
    "public_transform",
    st.fixed_dictionaries({"x": history(2, lengths=[3, 8, 16], scales=[1]), "thr": st.sampled_from([0.0, 2.0, -5.0])}),
    quick=300,
    thorough=6000,
    weight=1,
    secs=40,
)
def _(c):
    x = arr(c["x"])
    y, e = to_np(x_event(c["thr"])(x))
    ev = x.sum(axis=1) > c["thr"]
    # the library's init consumes the first observation
    prev = e[0] * 0 + np.nan
    from wax.flax.modules import EWMA

    if ev[0]:
        prev = np.asarray(EWMA(alpha=0.5).init_with_output(jax.random.PRNGKey(0), x[0])[0])
    for t in range(len(x)):
        prev = e[t] if ev[t] else prev
        tree_close(y[t], prev, what=f"step {t}")
    return why(ev)


@R.facet(
    "rare_events",
    st.fixed_dictionaries(
        {
            "backend": st.sampled_from(["haiku", "haiku", "flax"]),
            "op": catalog.op([o for o in OPS if o not in ("counter", "arma", "ewmcov")]),
            "initial": INIT,
            "d": long_case(lengths=(300, 700), columns=(3,), scales=(1,)),
        }
    ),
    quick=30,
    thorough=1200,
    weight=2,
    secs=80,
)
def _(c):
    """hundreds of steps without an event, or between the events"""
    x, ev = long_data(c["d"]).astype(np.float32), long_events(c["d"])
    ops = [c["op"]]
    if c["backend"] == "haiku":
        y = to_np(gated(ops, c["initial"], "single")(ev, ev, x)[0])
        e = reference(bare(ops), x, ev, c["initial"], len(x))
    else:
        y = to_np(fx(ops, c["initial"], "module")(ev, x)[0])
        e = to_np(fx(ops, c["initial"], "bare")(ev, x)[0])
        idx = np.maximum.accumulate(np.where(ev, np.arange(len(x)), -1))
        init = catalog._f(c["initial"])
        e = jax.tree_util.tree_map(lambda a: np.where((idx < 0).reshape((-1,) + (1,) * (a.ndim - 1)), np.asarray(init, a.dtype), a[idx]), e)
    tree_close(y, e, what="gated output", **atol(x))
    return why(ev)
