"""C01: unrolling equals applying step by step."""
import functools
import warnings

import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import catalog
from common import Untouched, arr, history, long_case, long_data, matrix, same, tree_close
from drivers import nondivergent
from harness import Registry
from run import cached, first, rest, to_np

R = Registry(
    "C01",
    rule="a stateful program and at least two processed steps",
    assumptions=["at least one step remains to be processed", "floating point comparison up to 1e-4 relative"],
)

FORMS = ["x", "xz", "kwarg", "dict", "mixed", "params", "double", "ints", "origin"]


def make_fun(ops, form):
    """a haiku function, and how the arguments of one step are built from (x, z, n)"""
    P = catalog.hk_program(ops)
    from wax.modules import EWMA, HasChanged
    from wax.modules.counter import Counter

    if form == "x":
        return lambda x: P(x)
    if form == "xz":
        return lambda x, z: (P(x), EWMA(com=3)(z), x * z[0])
    if form == "kwarg":
        return lambda x, *, z: {"p": P(x + z[:1] * 0), "e": (EWMA(com=3)(z),)}
    if form == "dict":
        return lambda d: [P(d["x"]), {"m": EWMA(alpha=0.5)(d["t"][0]), "n": HasChanged()(d["t"][1])}]
    if form == "mixed":
        return lambda a, d, *, z: (P(a), Counter()(), HasChanged()(d["n"]), d["n"] * 2, z.sum())
    if form == "params":
        def with_params(x, z):
            h = hk.Linear(2, name="lin")(jnp.nan_to_num(x))
            return P(x), EWMA(com=2)(h), hk.get_parameter("w", [], init=jnp.ones) * z

        return with_params
    if form == "double":
        # the same kind of module twice: both keep their own state
        return lambda x, z: (P(x), P(x * 2 + 1), EWMA(com=2)(EWMA(com=2)(z)))
    if form == "origin":
        # a state and a parameter that start from the first observation
        def since_first(x, z):
            origin = hk.get_state("origin", z.shape, z.dtype, init=lambda *_: z)
            scale = hk.get_parameter("scale", z.shape, z.dtype, init=lambda *_: 1 + z**2)
            return P(x), z - origin, EWMA(com=2)(z / scale)

        return since_first
    if form == "ints":
        return lambda n: (n + 1, Counter()(), HasChanged()(n))
    raise KeyError(form)


def make_args(form, x, z, n):
    if form == "x":
        return (x,), {}
    if form in ("xz", "params", "double", "origin"):
        return (x, z), {}
    if form == "kwarg":
        return (x,), {"z": z}
    if form == "dict":
        return ({"x": x, "t": (z, n)},), {}
    if form == "mixed":
        return (x, {"n": n}), {"z": z}
    if form == "ints":
        return (n,), {}
    raise KeyError(form)


class Bundle:
    """compiled pieces of one program"""

    def __init__(self, ops, form):
        import wax.unroll as U

        self.fun = make_fun(ops, form)
        self.form = form
        f = hk.transform_with_state(self.fun)
        self.f = f
        self.init = jax.jit(lambda rng, a, k: f.init(rng, *a, **k))
        self.apply = jax.jit(lambda p, s, a, k: f.apply(p, s, None, *a, **k))
        self.ut = {
            (skip): U.unroll_transform_with_state(self.fun, skip_first=skip) for skip in (False, True)
        }
        self.compiled = {
            skip: jax.jit(lambda p, s, r, a, k, u=u: u.apply(p, s, r, *a, **k)) for skip, u in self.ut.items()
        }

    def loop(self, args, kwargs, rng, skip, params=None, state=None):
        """the explicit loop"""
        a0, k0 = first((args, kwargs))
        p, s = self.init(rng, a0, k0)
        p = p if params is None else params
        s = s if state is None else state
        if skip:
            args, kwargs = rest((args, kwargs))
        outs = []
        T = len(jax.tree_util.tree_leaves((args, kwargs))[0])
        for t in range(T):
            at, kt = jax.tree_util.tree_map(lambda v: v[t], (args, kwargs))
            y, s = self.apply(p, s, at, kt)
            outs.append(to_np(y))
        return jax.tree_util.tree_map(lambda *v: np.stack(v), *outs), to_np(s), to_np(p)


get = cached(Bundle, maxsize=64)


@st.composite
def case(draw, lengths=(2, 4, 4, 12), max_ops=2, forms=FORMS):
    form = draw(st.sampled_from(forms))
    x = draw(history(3, lengths=list(lengths), scales=[1]))
    T = len(x)
    return {
        "ops": draw(catalog.program(hk=True, max_ops=max_ops)) if form != "ints" else [["diff", {}]],
        "form": form,
        "x": x,
        "z": draw(matrix(T, 2)),
        "n": [draw(st.integers(-2, 3)) for _ in range(T)],
        "skip": draw(st.booleans()),
        "seed": draw(st.integers(0, 5)),
    }


def load(c):
    args, kwargs = make_args(c["form"], arr(c["x"]), arr(c["z"]), np.array(c["n"], np.int32))
    return args, kwargs, jax.random.PRNGKey(c["seed"])


def check(got, outs, state, what, params=None):
    y, s = got
    y, s = to_np(y), to_np(s)
    assert jax.tree_util.tree_structure(y) == jax.tree_util.tree_structure(outs), (
        f"{what}: output structure {jax.tree_util.tree_structure(y)}"
    )
    for a, b in zip(jax.tree_util.tree_leaves(y), jax.tree_util.tree_leaves(outs)):
        assert a.dtype == b.dtype, f"{what}: output dtype {a.dtype} != {b.dtype}"
    tree_close(y, outs, what=what + " outputs", atol=1e-3)
    if s is not None:
        assert jax.tree_util.tree_structure(dict(s)) == jax.tree_util.tree_structure(dict(state))
        tree_close(dict(s), dict(state), what=what + " final state", atol=1e-3)


def why(c):
    return "stateful, several steps" if len(c["x"]) - c["skip"] >= 2 else None


@R.facet("compiled", case(lengths=(2, 4, 12, 40)), quick=220, thorough=7000, weight=4, secs=90)
def _(c):
    args, kwargs, rng = load(c)
    b = get(c["ops"], c["form"])
    outs, state, params = b.loop(args, kwargs, rng, c["skip"])
    u = b.ut[c["skip"]]
    p, s = u.init(rng, *args, **kwargs)
    tree_close(to_np(p), params, what="parameters of init")
    check(b.compiled[c["skip"]](p, s, rng, args, kwargs), outs, state, "unroll_transform_with_state")
    check(b.compiled[c["skip"]](p, s, None, args, kwargs), outs, state, "without key")
    return why(c)


@R.facet(
    "long_history",
    st.fixed_dictionaries(
        {
            "form": st.sampled_from(["x", "xz", "params", "origin", "dict", "ints", "mixed"]),
            "ops": catalog.program(hk=True, max_ops=1),
            "d": long_case(lengths=(300,), columns=(3,), scales=(1,)),
            "skip": st.booleans(),
        }
    ),
    quick=20,
    thorough=1500,
    weight=2,
    secs=80,
)
def _(c):
    """hundreds of steps"""
    x, z = long_data(c["d"]).astype(np.float32), long_data(c["d"], 1)[:, :2].astype(np.float32)
    n = np.random.default_rng(c["d"]["seed"]).integers(-2, 4, len(x)).astype(np.int32)
    args, kwargs = make_args(c["form"], x, z, n)
    ops = c["ops"] if c["form"] != "ints" else [["diff", {}]]
    b, rng = get(ops, c["form"]), jax.random.PRNGKey(0)
    outs, state, params = b.loop(args, kwargs, rng, c["skip"])
    if not nondivergent(outs):
        return None
    p, s = b.ut[c["skip"]].init(rng, *args, **kwargs)
    y, s = to_np(b.compiled[c["skip"]](p, s, rng, args, kwargs))
    assert jax.tree_util.tree_structure(y) == jax.tree_util.tree_structure(outs)
    tree_close(y, outs, what="outputs", rtol=1e-3, atol=1e-2)
    tree_close(dict(s), dict(state), what="final state", rtol=1e-3, atol=1e-2)
    return "hundreds of steps"


@R.facet("unroll_function", case(), quick=70, thorough=2500, weight=4, secs=90)
def _(c):
    from wax.unroll import unroll

    args, kwargs, rng = load(c)
    b = get(c["ops"], c["form"])
    outs, state, params = b.loop(args, kwargs, rng, c["skip"])
    got = unroll(b.fun, skip_first=c["skip"], return_final_state=True, rng=rng)(*args, **kwargs)
    check(got, outs, state, "unroll of a function")
    y = unroll(b.f, skip_first=c["skip"], rng=rng)(*args, **kwargs)
    check((y, None), outs, None, "unroll of a transformed pair")
    y = unroll(b.ut[c["skip"]], rng=rng)(*args, **kwargs)
    check((y, None), outs, None, "unroll of an unrolled pair")
    return why(c)


@R.facet("used_again", case(lengths=(2, 4), max_ops=1, forms=["origin", "origin", "origin", "params", "dict"]), quick=30, thorough=2000, weight=4, secs=80)
def _(c):
    """one unrolled function given several sequences: each run starts afresh"""
    from wax.unroll import unroll

    args, kwargs, rng = load(c)
    b = get(c["ops"], c["form"])
    turn = lambda v: v[::-1] * 2 + 1
    other = turn if c["seed"] % 2 else lambda v: np.concatenate([v[1:], turn(v)])
    f = unroll(b.fun, skip_first=c["skip"], return_final_state=True, rng=rng)
    compiled = jax.jit(lambda a, kw: f(*a, **kw))
    for k, change in enumerate((lambda v: v, other)):
        a, kw = jax.tree_util.tree_map(change, (args, kwargs))
        outs, state, params = b.loop(a, kw, rng, c["skip"])
        check(f(*a, **kw), outs, state, f"sequence {k} given to the same unrolled function")
        check(compiled(a, kw), outs, state, f"sequence {k} given to the same compiled function")
        p, s = b.ut[c["skip"]].init(rng, *a, **kw)
        tree_close(to_np(dict(p)), dict(params), what=f"parameters for sequence {k}")
    return why(c)


@R.facet("interpreted", case(lengths=(2, 3, 5), max_ops=1), quick=60, thorough=2500, weight=4, secs=90)
def _(c):
    from wax.unroll import unroll, unroll_transform_with_state

    args, kwargs, rng = load(c)
    b = get(c["ops"], c["form"])
    outs, state, params = b.loop(args, kwargs, rng, c["skip"])
    got = unroll(b.fun, skip_first=c["skip"], dynamic=False, return_final_state=True, rng=rng)(*args, **kwargs)
    check(got, outs, state, "interpreted unroll")
    # compiled from outside
    u = unroll_transform_with_state(b.fun, skip_first=c["skip"], dynamic=False)
    p, s = u.init(rng, *args, **kwargs)
    got = jax.jit(lambda p, s, a, k: u.apply(p, s, None, *a, **k))(p, s, args, kwargs)
    check(got, outs, state, "compiled interpreted unroll")
    return why(c)


@R.facet("given_params_and_state", case(forms=["params", "xz", "dict"]), quick=70, thorough=2500, weight=3, secs=90)
def _(c):
    """start from the state reached after other data, with other parameters"""
    from wax.unroll import unroll

    args, kwargs, rng = load(c)
    b = get(c["ops"], c["form"])
    other = jax.tree_util.tree_map(lambda v: v[::-1] * 2 if v.dtype.kind == "f" else v[::-1], (args, kwargs))
    _, warm, params = b.loop(other[0], other[1], jax.random.PRNGKey(99), False)
    params = jax.tree_util.tree_map(lambda v: v + np.float32(0.5), params)
    keep = Untouched(params, warm, args, kwargs)
    for P, S in ((params, warm), (params, None), (None, warm)):
        outs, state, _ = b.loop(args, kwargs, rng, c["skip"], P, S)
        got = unroll(b.fun, skip_first=c["skip"], return_final_state=True, rng=rng, params=P, state=S)(*args, **kwargs)
        check(got, outs, state, f"params {'given' if P else 'own'}, state {'given' if S else 'own'}")
        keep.check()
    return why(c)


def quiet(f):
    @functools.wraps(f)
    def g(*a, **k):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return f(*a, **k)

    return g


@st.composite
def older_case(draw):
    c = draw(st.one_of(case(lengths=(2, 3, 5), max_ops=1), case(lengths=(2, 3, 5), max_ops=1, forms=["origin"])))
    c["own"] = draw(st.booleans())
    return c


@R.facet("older_entry_points", older_case(), quick=60, thorough=1500, weight=4, secs=90)
@quiet
def _(c):
    import wax.unroll as U

    args, kwargs, rng = load(c)
    b = get(c["ops"], c["form"])
    outs, state, params = b.loop(args, kwargs, rng, c["skip"])
    p, s = U.init_params_state(b.f, rng, *args, **kwargs)
    tree_close(to_np(p), params, what="init_params_state")
    check(U.dynamic_unroll(b.f, None, None, rng, c["skip"], *args, **kwargs), outs, state, "dynamic_unroll")
    if c["own"]:
        p = s = None
    check(U.static_unroll(b.f, p, s, rng, c["skip"], *args, **kwargs), outs, state, "static_unroll")
    check(U.dynamic_unroll_fori_loop(b.f, p, s, rng, c["skip"], *args, **kwargs), outs, state, "fori loop")
    return why(c)


# ---------------------------------------------------------------- random keys


@st.composite
def rng_case(draw):
    return {
        "T": draw(st.integers(2, 5)),
        "seed": draw(st.integers(0, 2**31)),
        "skip": draw(st.booleans()),
        "form": draw(st.sampled_from(["compiled", "interpreted", "fori", "older", "batch", "batch_static"])),
        "via": draw(st.sampled_from(["key", "normal"])),
    }


@R.facet("random_keys", rng_case(), quick=120, thorough=3000, weight=2, secs=60)
@quiet
def _(c):
    """every step gets its own key; all loops give the same draws; other keys other draws"""
    import wax.unroll as U
    from wax.transform import transform_batch_with_state, transform_batch_with_state_static

    def fun(x):
        if c["via"] == "key":
            return jax.random.key_data(hk.next_rng_key()).astype(jnp.uint32)
        return jax.random.normal(hk.next_rng_key(), (2,)) + 0 * x

    xs = np.zeros((c["T"], 2), np.float32)
    f = hk.transform_with_state(fun)
    skip = c["skip"]

    def run(form, rng):
        if form == "compiled":
            return U.unroll(fun, skip_first=skip, rng=rng)(xs)
        if form == "interpreted":
            return U.unroll(fun, skip_first=skip, dynamic=False, rng=rng)(xs)
        if form == "fori":
            return U.dynamic_unroll_fori_loop(f, None, None, rng, skip, xs)[0]
        if form == "older":
            return U.static_unroll(f, None, None, rng, skip, xs)[0]
        t = (transform_batch_with_state if form == "batch" else transform_batch_with_state_static)(f, skip_first=skip)
        # the key of init is not the one of apply
        p, s = t.init(jax.random.PRNGKey(123), xs)
        return t.apply(p, s, rng, xs)[0]

    rng = jax.random.PRNGKey(c["seed"])
    y = np.asarray(run(c["form"], rng))
    n = c["T"] - skip
    assert len(y) == n, f"{len(y)} outputs for {n} steps"
    rows = {tuple(r) for r in y.tolist()}
    assert len(rows) == n, f"a random key is used twice: {y}"
    assert tuple(np.asarray(rng).tolist()) not in rows, "the key itself was used"
    ref = np.asarray(run("compiled", rng))
    same(y, ref, f"{c['form']} against compiled")
    z = np.asarray(run(c["form"], jax.random.PRNGKey(c["seed"] + 1)))
    assert not {tuple(r) for r in z.tolist()} & rows, "another key gives the same draws"
    return "several draws" if n >= 2 else None


# ---------------------------------------------------------------- scan, batch transforms, generators


def scan_funs(kind):
    if kind == "sum":
        return lambda c, x: (c + x["a"].sum(), {"s": c, "t": (x["a"] * 2, x["b"])})
    if kind == "two":
        return lambda c, x: ((c[1], c[0] + x["b"]), [c[0] * 2, c[1] - x["b"]])
    return lambda c, x: (c * 2 + 1, c)


@R.facet(
    "python_scan",
    st.fixed_dictionaries(
        {
            "kind": st.sampled_from(["sum", "two", "length"]),
            "T": st.integers(1, 6),
            "a": matrix(6, 2, nan=False),
            "c": st.integers(-3, 3),
        }
    ),
    quick=120,
    thorough=3000,
    weight=1,
    secs=40,
)
def _(c):
    from wax.unroll import static_scan

    f = scan_funs(c["kind"])
    a = arr(c["a"])[: c["T"]]
    c0 = jnp.float32(c["c"])
    if c["kind"] == "length":
        got = static_scan(f, c0, None, length=c["T"])
        e = jax.lax.scan(f, c0, None, length=c["T"])
    else:
        xs = {"a": a, "b": a[:, 0]}
        init = (c0, c0 + 1) if c["kind"] == "two" else c0
        got, e = static_scan(f, init, xs), jax.lax.scan(f, init, xs)
    assert jax.tree_util.tree_structure(got) == jax.tree_util.tree_structure(e)
    tree_close(to_np(got), to_np(e), what="scan", rtol=1e-5)
    return "several steps" if c["T"] > 1 else None


@R.facet("batch_transforms", case(lengths=(2, 3, 5), max_ops=1, forms=["x"]), quick=50, thorough=2000, weight=2, secs=80)
def _(c):
    from wax.transform import transform_batch_with_state, transform_batch_with_state_static

    args, kwargs, rng = load(c)
    b = get(c["ops"], c["form"])
    outs, state, params = b.loop(args, kwargs, rng, c["skip"])
    for make in (transform_batch_with_state, transform_batch_with_state_static):
        t = make(b.f, skip_first=c["skip"])
        p, s = t.init(rng, args[0])
        y, s2 = t.apply(p, s, None, args[0])
        check((y, s2.fun_state), outs, state, make.__name__)
        tree_close(to_np(dict(s2.fun_params)), to_np(dict(params)), what="parameters carried")
        # a second batch continues from the returned state
        t2 = make(b.f, skip_first=False)
        y2, s3 = t2.apply(p, s2, None, args[0])
        o2, st2, _ = b.loop(args, kwargs, rng, False, None, state)
        check((y2, s3.fun_state), o2, st2, make.__name__ + " second batch")
    return why(c)


@R.facet("generator_loops", case(lengths=(2, 3, 5), max_ops=1, forms=["x", "dict"]), quick=50, thorough=2000, weight=2, secs=80)
def _(c):
    from wax.unroll import data_unroll, gym_static_unroll

    args, kwargs, rng = load(c)
    b = get(c["ops"], c["form"])
    T = len(c["x"])

    def gen():
        for t in range(T):
            yield jax.tree_util.tree_map(lambda v: v[t], args[0]), {"t": t}

    xs = data_unroll(gen(), pbar=False)
    assert jax.tree_util.tree_structure(xs) == jax.tree_util.tree_structure(args[0])
    tree_close(to_np(xs), args[0], what="data_unroll")

    outs, state, params = b.loop(args, kwargs, rng, c["skip"])
    seq = iter([rng] + [jax.random.PRNGKey(i) for i in range(T + 2)])
    check(gym_static_unroll(b.f, None, None, seq, c["skip"], gen()), outs, state, "gym_static_unroll")
    return why(c)


@R.facet("compiled_pairs", case(lengths=(2, 4), max_ops=1, forms=["x", "params", "origin", "dict"]), quick=25, thorough=1500, weight=2, secs=60)
def _(c):
    """the compilation helper for a pair of functions"""
    from wax.compile import jit_init_apply
    from wax.unroll import unroll_transform_with_state

    args, kwargs, rng = load(c)
    b = get(c["ops"], c["form"])
    outs, state, params = b.loop(args, kwargs, rng, False)
    j = jit_init_apply(b.f)
    assert type(j) is type(b.f)
    a0, k0 = first((args, kwargs))
    p, s = j.init(rng, *a0, **k0)
    tree_close(to_np(dict(p)), to_np(dict(params)), what="parameters")
    got = []
    for t in range(len(c["x"])):
        at, kt = jax.tree_util.tree_map(lambda v: v[t], (args, kwargs))
        y, s = j.apply(p, s, None, *at, **kt)
        got.append(to_np(y))
    check((jax.tree_util.tree_map(lambda *v: np.stack(v), *got), s), outs, state, "compiled pair, step by step")
    u = jit_init_apply(unroll_transform_with_state(b.fun))
    p, s = u.init(rng, *args, **kwargs)
    check(u.apply(p, s, rng, *args, **kwargs), outs, state, "compiled pair of an unroll")
    stateless = jit_init_apply(hk.transform(lambda x: x * hk.get_parameter("w", [], init=jnp.ones)))
    x = args[0]["x"] if c["form"] == "dict" else args[0]
    q = stateless.init(rng, x[0])
    same(np.asarray(stateless.apply(jax.tree_util.tree_map(lambda v: v * 3, q), None, x[0])), np.asarray(x[0] * np.float32(3)), "pair without state")
    return why(c)
