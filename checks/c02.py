"""C02: the returned state is sufficient (chunks equal one pass)."""
import copy
import pickle

import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import catalog
from common import arr, chunks, close, history, long_case, long_data, tree_close
from drivers import fx_mod, fx_prog, fx_special, hk_fun, hk_prog, hk_special, in_chunks, nondivergent, one_pass, plain
from harness import Registry
from run import to_np

R = Registry(
    "C02",
    rule="a stateful program and at least two non-empty chunks",
    assumptions=["floating point comparison: 1e-4 relative", "caller keeps parameters and state as returned"],
)


@st.composite
def case(draw, backends=("haiku", "flax"), lengths=(2, 6, 12, 12)):
    b = draw(st.sampled_from(list(backends)))
    x = draw(history(3, lengths=list(lengths), scales=[1]))
    T = len(x)
    step = 1 if T < 12 else 2
    points = list(range(step, T, step))
    cuts = sorted(draw(st.sets(st.sampled_from(points), min_size=1, max_size=3)))
    return {"backend": b, "prog": draw(hk_prog if b == "haiku" else fx_prog), "x": x, "cuts": cuts}


def transport(tree):
    """what a caller may do with a state between two chunks: copy it, store its leaves, load them"""
    leaves, form = jax.tree_util.tree_flatten(copy.deepcopy(tree))
    return jax.tree_util.tree_unflatten(form, pickle.loads(pickle.dumps([np.asarray(v) for v in leaves])))


@R.facet("chunks", case(), quick=200, thorough=8000, weight=7, secs=100)
def _(c):
    x = arr(c["x"])
    one = one_pass(c["backend"], c["prog"])
    p, s0 = one.init(jax.random.PRNGKey(3), x)
    p, s0 = to_np(p), to_np(plain(s0))
    y, s = one.apply(p, s0, x)
    y, s = to_np(y), to_np(plain(s))
    if not nondivergent(y):
        return None
    outs, state = [], s0
    for k, part in enumerate(chunks(x, c["cuts"])):
        r = in_chunks(c["backend"], c["prog"], k % 2)
        before = transport(state)
        out, new = r.apply(p, state, part)
        # the same chunk again from the same state gives the same
        if k == 1:
            again, _ = one.apply(p, before, part)
            tree_close(to_np(again), to_np(out), what="the same chunk processed twice", atol=1e-3)
        state = transport(plain(new))
        outs.append(to_np(out))
    joined = jax.tree_util.tree_map(lambda *v: np.concatenate(v), *outs)
    tree_close(joined, y, what="outputs of the chunks", atol=1e-3)
    assert jax.tree_util.tree_structure(state) == jax.tree_util.tree_structure(s), "structure of the final state"
    tree_close(state, s, what="final state of the chunks", atol=1e-3)
    return "several chunks"


@R.facet("single_steps", case(lengths=(2, 6)), quick=80, thorough=3000, weight=4, secs=90)
def _(c):
    """chunks of one observation, through the public init/apply pairs"""
    x = arr(c["x"])
    one = one_pass(c["backend"], c["prog"])
    p, s0 = one.init(jax.random.PRNGKey(3), x)
    y, s = one.apply(p, s0, x)
    if not nondivergent(y):
        return None
    if c["backend"] == "haiku":
        f = hk.transform_with_state(hk_fun(c["prog"]))
        step = jax.jit(lambda s, v: f.apply(p, s, None, v))
    else:
        from wax.flax.core.transform import flax_transform_with_state

        f = flax_transform_with_state(fx_mod(c["prog"]))
        step = jax.jit(lambda s, v: f.apply(p, s, None, v))
    st_, outs = to_np(plain(s0)), []
    for v in x:
        o, st_ = step(transport(plain(st_)), v)
        outs.append(to_np(o))
    joined = jax.tree_util.tree_map(lambda *v: np.stack(v), *outs)
    tree_close(joined, to_np(y), what="outputs of single steps", atol=1e-3)
    tree_close(to_np(plain(st_)), to_np(plain(s)), what="final state of single steps", atol=1e-3)
    return "single steps"


@R.facet("interleaved_streams", case(lengths=(6,)), quick=60, thorough=2500, weight=4, secs=90)
def _(c):
    """two histories processed in turns with one transform do not disturb each other"""
    x = arr(c["x"])
    z = x[::-1] * np.float32(0.5) + np.float32(1)
    one = one_pass(c["backend"], c["prog"])
    res = []
    for h in (x, z):
        p, s0 = one.init(jax.random.PRNGKey(3), h)
        y, s = one.apply(p, s0, h)
        res.append((p, to_np(plain(s0)), to_np(y), to_np(plain(s))))
    if not (nondivergent(res[0][2]) and nondivergent(res[1][2])):
        return None
    states = [r[1] for r in res]
    outs = [[], []]
    for a, b in zip(chunks(x, c["cuts"]), chunks(z, c["cuts"])):
        for i, part in enumerate((a, b)):
            o, n = one.apply(res[i][0], states[i], part)
            states[i] = to_np(plain(n))
            outs[i].append(to_np(o))
    for i in range(2):
        joined = jax.tree_util.tree_map(lambda *v: np.concatenate(v), *outs[i])
        tree_close(joined, res[i][2], what=f"history {i}", atol=1e-3)
        tree_close(states[i], res[i][3], what=f"final state {i}", atol=1e-3)
    return "two histories in turns"


@R.facet(
    "accessor_chunks",
    st.fixed_dictionaries(
        {
            "x": history(2, lengths=[6, 12], scales=[1]),
            "cut": st.sampled_from([2, 4]),
            "prog": catalog.program(hk=True, max_ops=2),
        }
    ),
    quick=60,
    thorough=2000,
    weight=3,
    secs=90,
)
def _(c):
    """the state returned by the stream accessor continues the stream"""
    import xarray as xr
    import pandas as pd
    from wax.accessors import register_wax_accessors

    register_wax_accessors()
    x = arr(c["x"])
    T = len(x)
    da = xr.DataArray(
        np.concatenate([x, x[:, :1]], axis=1), dims=("time", "c"), coords={"time": pd.date_range("2021-01-01", periods=T), "c": list("abz")}
    )
    fun = catalog.hk_program(c["prog"])
    run = lambda d, **k: d.wax.stream().apply(lambda v: fun(v)["last"], format_dims=da.dims, **k)
    y, s = run(da)
    from wax.unroll import unroll_transform_with_state

    ref = unroll_transform_with_state(lambda v: fun(v)["last"])
    p, _ = ref.init(jax.random.PRNGKey(0), da.values)
    # the accessor draws its own parameters; programs here have fixed ones
    n = c["cut"]
    y1, s1 = run(da[:n])
    y2, s2 = run(da[n:], state=s1, params=p)
    a = np.concatenate([y1.values, y2.values])
    tree_close(a, y.values, what="accessor outputs", atol=1e-3)
    tree_close(to_np(plain(s2)), to_np(plain(s)), what="accessor final state", atol=1e-3)
    return "two chunks"


@st.composite
def long_chunks(draw):
    b = draw(st.sampled_from(["haiku", "flax"]))
    return {
        "backend": b,
        "prog": draw(st.one_of(catalog.program(hk=b == "haiku", max_ops=1), hk_special if b == "haiku" else fx_special)),
        "d": draw(long_case(lengths=(600,), columns=(3,), scales=(1,))),
        # few lengths, so that compiled code is reused
        "cuts": draw(st.sampled_from([[300], [200, 400], [1, 300], [300, 599], [50, 550]])),
    }


@R.facet("long_chunks", long_chunks(), quick=30, thorough=1500, weight=3, secs=90)
def _(c):
    """hundreds of observations before, between and after the cuts"""
    x = long_data(c["d"]).astype(np.float32)
    one = one_pass(c["backend"], c["prog"])
    p, s0 = one.init(jax.random.PRNGKey(3), x)
    y, s = one.apply(p, s0, x)
    y, s = to_np(y), to_np(plain(s))
    if not nondivergent(y):
        return None
    outs, state = [], to_np(plain(s0))
    for part in chunks(x, c["cuts"]):
        out, new = in_chunks(c["backend"], c["prog"], 0).apply(p, transport(state), part)
        state = transport(plain(new))
        outs.append(to_np(out))
    joined = jax.tree_util.tree_map(lambda *v: np.concatenate(v), *outs)
    tree_close(joined, y, what="outputs of the chunks", rtol=1e-3, atol=1e-2)
    tree_close(state, s, what="final state of the chunks", rtol=1e-3, atol=1e-2)
    return "hundreds of steps"


# ---------------------------------------------------------------- every entry point that takes a state
CARRIES = {
    "haiku": ["unroll", "unroll_static", "dynamic_unroll", "static_unroll", "fori_loop", "batch", "batch_static"],
    "flax": ["unroll", "unroll_static", "transform", "scan_apply", "streaming"],
}


@st.composite
def carry_case(draw):
    b = draw(st.sampled_from(sorted(CARRIES)))
    x = draw(history(3, lengths=[3, 6], scales=[1]))
    cuts = sorted(draw(st.lists(st.integers(1, len(x) - 1), min_size=1, max_size=2, unique=True)))
    return {
        "backend": b, "entry": draw(st.sampled_from(CARRIES[b])), "fun": draw(st.sampled_from(["origin", "both", "both", "average", "lag"])),
        "x": x, "cuts": cuts, "fresh": draw(st.booleans()),
    }


def carrier(c):
    """(init(x) -> params and state, run(params, state, x) -> outputs and state)"""
    import haiku as hk
    import wax.unroll as U
    from c03 import fx_module, hk_function
    from wax.flax.core.streaming_transforms import streaming_scan, streaming_transform_with_state
    from wax.flax.core.unroll import flax_unroll, flax_unroll_transform
    from wax.transform import transform_batch_with_state, transform_batch_with_state_static

    e, rng = c["entry"], jax.random.PRNGKey(5)
    if c["backend"] == "flax":
        t = flax_unroll_transform(fx_module(c["fun"]))
        if e in ("unroll", "unroll_static"):
            return t.init, lambda p, s, x: flax_unroll(
                fx_module(c["fun"]), rng=rng, dynamic=e == "unroll", return_final_state=True, params=p, state=s)(x)
        if e == "transform":
            return t.init, lambda p, s, x: t.apply(p, s, rng, x)
        r = (streaming_scan if e == "scan_apply" else streaming_transform_with_state)(lambda x: fx_module(c["fun"])(x))
        first = lambda k, x: r.init(k, x[0])
        if e == "scan_apply":
            return first, lambda p, s, x: r.scan_apply(x, params=p, state=s, rng=rng)
        return first, lambda p, s, x: r.scan(p, s, rng, x)
    f = hk_function(c["fun"])
    t = hk.transform_with_state(f)
    u = U.unroll_transform_with_state(f)
    if e in ("unroll", "unroll_static"):
        return u.init, lambda p, s, x: U.unroll(f, rng=rng, dynamic=e == "unroll", return_final_state=True, params=p, state=s)(x)
    if e in ("dynamic_unroll", "static_unroll"):
        return u.init, lambda p, s, x: getattr(U, e)(t, p, s, rng, False, x)
    if e == "fori_loop":
        return u.init, lambda p, s, x: U.dynamic_unroll_fori_loop(t, p, s, rng, False, x)
    b = (transform_batch_with_state if e == "batch" else transform_batch_with_state_static)(t)
    return b.init, lambda p, s, x: b.apply(p, s, s.rng_key, x)


@R.facet("entry_points", carry_case(), quick=80, thorough=3000, weight=3, secs=90)
def _(c):
    """every entry point that takes a state goes on from the one it returned"""
    import contextlib
    import io
    import warnings

    x = jnp.asarray(arr(c["x"]).astype(np.float32))
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        warnings.simplefilter("ignore")
        init, run = carrier(c)
        p, s0 = init(jax.random.PRNGKey(1), x)
        whole, end = run(p, s0, x)
        s, parts, at = s0, [], 0
        for stop in [*c["cuts"], len(x)]:
            if c["fresh"]:
                init, run = carrier(c)
            y, s = run(p, s, x[at:stop])
            parts.append(np.asarray(y))
            at = stop
    close(np.concatenate(parts), np.asarray(whole), what=f"{c['backend']} {c['entry']} cut at {c['cuts']}")
    tree_close(to_np(plain(s)), to_np(plain(end)), what=f"{c['backend']} {c['entry']}: final state")
    return c["entry"]
