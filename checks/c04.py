"""C04: lanes of a mapped stateful function are independent; lifted unrolls continue."""
import warnings

import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import catalog
import specials
from common import arr, close, matrix, same, tree_close
from harness import Registry
from run import cached, first, to_np

R = Registry(
    "C04",
    rule="at least two lanes or two calls of a function with state or parameters",
    assumptions=["floating point comparison: 1e-4 relative (lanes against each other: bit for bit)"],
)
FORMS = ["prog", "params", "state_init", "two", "special", "stateless"]


def inner(ops, form):
    P = catalog.hk_program(ops)
    from wax.modules import EWMA

    if form == "prog":
        return lambda x: P(x)
    if form == "params":
        return lambda x: (P(x)["last"], EWMA(com=2)(hk.Linear(2, name="lin")(jnp.nan_to_num(x))), hk.get_parameter("w", [], init=jnp.ones))
    if form == "state_init":
        # the initial state depends on the first observation
        def fun(x):
            s = hk.get_state("s", x.shape, init=lambda *_: jnp.nan_to_num(x) * 2)
            s = s * 0.5 + jnp.nan_to_num(x)
            hk.set_state("s", s)
            return s, P(x)["last"]

        return fun
    if form == "two":
        return lambda x: {"a": P(x), "b": P(x[::-1] + 1), "c": [jnp.sum(x)]}
    if form == "stateless":
        return lambda x: {"d": x * 2, "s": jnp.sum(x)}
    if form == "special":
        names = sorted(k for k in specials.HK if k != "vmap")
        return specials.HK[names[sum(map(ord, ops[0][0])) % len(names)]]
    raise KeyError(form)


def own(tree, names):
    """the entries of the lifted tree that belong to the function, under the names they have without the lifting"""
    out = {}
    for n in names:
        keys = [k for k in tree if k == n or k.endswith("/" + n) or (n == "~" and k.count("/") == 0)]
        # "ffill" also ends "pct_change/ffill": the shortest name is the function's own
        depth = min([k.count("/") for k in keys], default=0)
        keys = [k for k in keys if k.count("/") == depth]
        assert len(keys) == 1, f"{n} among {sorted(tree)}"
        out[n] = tree[keys[0]]
    return out


def lane(tree, b):
    return jax.tree_util.tree_map(lambda v: v[b], tree)


class Lift:
    def __init__(self, ops, form, mode, split, init_rng, how="position"):
        from wax.modules.vmap import VMap, add_batch
        from wax.stateful import unroll_lift_with_state, vmap_lift_with_state

        fun = inner(ops, form)
        self.single = hk.transform_with_state(fun)
        if how == "both":
            alone = fun
            fun = lambda a, b: alone(a + b)
        elif how == "name":
            alone = fun
            fun = lambda obs: alone(obs)
        if mode == "vmap":
            lifted = vmap_lift_with_state(fun, split_rng=split, init_rng=init_rng)
        elif mode == "module":
            lifted = lambda *a, **k: VMap(fun)(*a, **k)
        elif mode == "batch":
            lifted = add_batch(fun, take_mean=False)
        elif mode == "mean":
            lifted = lambda *a, **k: (add_batch(fun, take_mean=False)(*a, **k), add_batch(fun, take_mean=True)(*a, **k))
        elif mode == "unroll":
            lifted = unroll_lift_with_state(fun, split_rng=split, init_rng=init_rng)
        elif mode == "unroll_skip":
            lifted = unroll_lift_with_state(fun, skip_first=True, split_rng=split, init_rng=init_rng)
        # the batch (or piece) is given by position, by name, or as two halves, one of each
        given = {
            "position": lambda x: lifted(x),
            "name": lambda x: lifted(obs=x),
            "both": lambda x: lifted(x * 0.5, b=x * 0.5),
        }[how]
        self.lifted = hk.transform_with_state(given)
        self.init = jax.jit(self.lifted.init)
        self.apply = jax.jit(self.lifted.apply)
        self.single_init = jax.jit(self.single.init)

        def steps(p, s, xs):
            def body(s, x):
                y, s = self.single.apply(p, s, None, x)
                return s, y

            s, ys = jax.lax.scan(body, s, xs)
            return ys, s

        self.steps = jax.jit(steps)


get = cached(Lift, maxsize=64)


@st.composite
def case(draw, modes):
    form = draw(st.sampled_from(FORMS))
    T, B = draw(st.sampled_from([4, 2])), draw(st.sampled_from([3, 3, 1]))
    return {
        "ops": draw(catalog.program(hk=True, max_ops=2)),
        "form": form,
        "mode": draw(st.sampled_from(modes)),
        "split": draw(st.booleans()),
        "init_rng": draw(st.booleans()),
        "how": draw(st.sampled_from(["position", "position", "name", "both"])),
        "x": [draw(matrix(B, 3)) for _ in range(T)],
        "bad": draw(st.sampled_from(["nan", "inf", "5"])),
        "who": draw(st.integers(0, B - 1)),
        "seed": draw(st.integers(0, 5)),
    }


def bundle(c):
    needs = c["form"] in ("params", "special")
    split = bool(c["split"])
    init_rng = bool(c["init_rng"]) or split or needs
    return get(c["ops"], c["form"], c["mode"], split, init_rng, c.get("how", "position")), split, init_rng


def run_lifted(L, x, seed):
    """calls of the transformed function, one per x[t]; a key is given to every call"""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        p, s = L.init(jax.random.PRNGKey(seed), x[0])
        p, s0 = to_np(p), to_np(s)
        s, outs = s0, []
        for t in range(len(x)):
            y, s = L.apply(p, s, jax.random.PRNGKey(100 + t), x[t])
            outs.append(to_np(y))
    return p, s0, jax.tree_util.tree_map(lambda *v: np.stack(v), *outs), to_np(s)


@R.facet("lanes", case(["vmap", "vmap", "vmap", "module", "batch"]), quick=180, thorough=4000, weight=6, secs=100)
def _(c):
    """every lane = the function on its own with the parameters of that lane"""
    L, split, init_rng = bundle(c)
    x = arr(c["x"])
    T, B = x.shape[:2]
    p, s0, y, s = run_lifted(L, x, c["seed"])
    p1, st1 = L.single_init(jax.random.PRNGKey(1), x[0, 0])
    P, S0, S = own(p, p1), own(s0, st1), own(s, st1)
    for b in range(B):
        pb, sb = lane(P, b), lane(S0, b)
        # initial state: the one of the function on its own
        i1, is1 = L.single_init(jax.random.PRNGKey(1), x[0, b])
        tree_close(sb, to_np(is1), what=f"initial state of lane {b}") if c["form"] in ("prog", "state_init", "two") else None
        yb, s_end = L.steps(pb, sb, x[:, b])
        tree_close(jax.tree_util.tree_map(lambda v: v[:, b], y), to_np(yb), what=f"outputs of lane {b}", atol=1e-3)
        tree_close(lane(S, b), to_np(s_end), what=f"final state of lane {b}", atol=1e-3)
    # other lanes do not see what happens in one of them
    z = x.copy()
    z[1:, c["who"]] = float(c["bad"])
    _, _, y2, s2 = run_lifted(L, z, c["seed"])
    for b in range(B):
        if b != c["who"]:
            for u, v in zip(jax.tree_util.tree_leaves(y), jax.tree_util.tree_leaves(y2)):
                same(u[:, b], v[:, b], f"lane {b} after a change in lane {c['who']}")
    return "lanes" if B > 1 and c["form"] != "stateless" else None


@R.facet("keys", st.fixed_dictionaries({"split": st.booleans(), "B": st.sampled_from([2, 3]), "seed": st.integers(0, 50), "unroll": st.booleans(), "named": st.booleans()}), quick=32, thorough=300, weight=3, secs=60)
def _(c):
    """random keys: own ones per lane and step when split, none needed at apply otherwise"""
    from wax.stateful import unroll_lift_with_state, vmap_lift_with_state

    lift = unroll_lift_with_state if c["unroll"] else vmap_lift_with_state

    def fun(x):
        noise = jax.random.normal(hk.next_rng_key(), ()) if c["split"] else jnp.zeros(())
        return hk.Linear(3, name="l")(x), noise, jax.random.normal(hk.next_rng_key(), ()) if c["split"] else noise

    f = hk.transform_with_state(lambda x: lift(fun, split_rng=c["split"])(**{"x": x}) if c.get("named") else lift(fun, split_rng=c["split"])(x))
    x = jnp.ones((c["B"], 2))
    p, s = f.init(jax.random.PRNGKey(c["seed"]), x)
    w = np.asarray([v for k, v in p.items() if k.endswith("l")][0]["w"])
    k1 = jax.random.PRNGKey(c["seed"] + 1) if c["split"] else None
    k2 = jax.random.PRNGKey(c["seed"] + 2) if c["split"] else None
    (y, n1, m1), s = f.apply(p, s, k1, x)
    (_, n2, m2), s = f.apply(p, s, k2, x)
    (_, n3, _), _ = f.apply(p, s, k1, x)
    if c["split"]:
        v = np.concatenate([np.asarray(a) for a in (n1, n2, m1, m2)])
        assert len(np.unique(v)) == len(v), f"random numbers repeat: {v}"
        same(n1, n3, "same key, same numbers")
    if not c["unroll"]:
        if c["split"]:
            assert not np.array_equal(w[0], w[1]), "all lanes have the same random parameters although the keys are split"
        else:
            same(w[0], w[1], "lanes initialised with one key")
    else:
        assert w.shape == (2, 3), "one set of parameters"
    return "split" if c["split"] else "one key"


@R.facet("mean", case(["mean"]), quick=60, thorough=1000, weight=3, secs=70)
def _(c):
    """add_batch: the mean over the lanes, leaf by leaf"""
    if c["form"] in ("params", "special"):
        c = dict(c, form="two")
    L, _, _ = bundle(c)
    x = arr(c["x"])
    _, _, (full, mean), _ = run_lifted(L, x, c["seed"])
    for u, v in zip(jax.tree_util.tree_leaves(full), jax.tree_util.tree_leaves(mean)):
        close(v, u.astype(np.float64).mean(axis=1), what="mean of the lanes", atol=1e-3)
    return "mean" if x.shape[1] > 1 else None


@R.facet("lifted_unroll", case(["unroll", "unroll", "unroll_skip"]), quick=120, thorough=3000, weight=5, secs=90)
def _(c):
    """a lifted unroll called on consecutive pieces = one unroll over all of them"""
    L, split, init_rng = bundle(c)
    x = arr(c["x"])
    if x.shape[1] == 1:
        x = np.concatenate([x, x[:, :] + 1], axis=1)  # two steps per piece
    p, s0, y, s = run_lifted(L, x, c["seed"])
    p1, st1 = L.single_init(jax.random.PRNGKey(1), x[0, 0])
    P, S0, S = own(p, p1), own(s0, st1), own(s, st1)
    tree_close(S0, to_np(st1), what="initial state") if c["form"] in ("prog", "state_init", "two") else None
    state, outs = S0, []
    for piece in x:
        o, state = L.steps(P, state, piece[1:] if c["mode"] == "unroll_skip" else piece)
        outs.append(to_np(o))
    expected = jax.tree_util.tree_map(lambda *v: np.stack(v), *outs)
    tree_close(y, expected, what="outputs", atol=1e-3)
    tree_close(S, to_np(state), what="final state", atol=1e-3)
    return "several calls" if c["form"] != "stateless" else None


nested_case = st.fixed_dictionaries(
    {
        "ops": catalog.program(hk=True, max_ops=2),
        "x": st.lists(st.lists(matrix(2, 3), min_size=3, max_size=3), min_size=2, max_size=2),
        "kind": st.sampled_from(["vmap_unroll", "unroll_vmap", "vmap_vmap", "siblings"]),
    }
)


@cached
def nested(kind, ops):
    from wax.stateful import unroll_lift_with_state as ul
    from wax.stateful import vmap_lift_with_state as vl

    P = catalog.hk_program(ops)
    one = hk.transform_with_state(lambda x: P(x)["last"])

    f1 = lambda v: P(v)["last"]

    def siblings(x):
        return vl(f1)(x[:, 0]), ul(f1)(x[:, 1]), P(x[0, 0])["last"], vl(f1)(x[:, 1]), ul(f1)(x[:, 0])

    f = {
        "vmap_unroll": lambda x: vl(lambda v: ul(lambda u: P(u)["last"])(v))(x),
        "unroll_vmap": lambda x: ul(lambda v: vl(lambda u: P(u)["last"])(v))(x),
        "vmap_vmap": lambda x: vl(lambda v: vl(lambda u: P(u)["last"])(v))(x),
        "siblings": siblings,
    }[kind]
    t = hk.transform_with_state(f)

    def reference(seq):
        """the function on its own over a sequence"""
        p, s = one.init(None, seq[0])

        def body(s, x):
            y, s = one.apply(p, s, None, x)
            return s, y

        return jax.lax.scan(body, s, seq)[1]

    return jax.jit(t.init), jax.jit(t.apply), jax.jit(reference)


@R.facet("nested", nested_case, quick=80, thorough=1500, weight=4, secs=90)
def _(c):
    """liftings inside each other and next to each other"""
    init, apply, ref = nested(c["kind"], c["ops"])
    x = arr(c["x"])  # calls, 3, 2, features
    p, s = init(jax.random.PRNGKey(0), x[0])
    ys = []
    for t in range(len(x)):
        y, s = apply(p, s, None, x[t])
        ys.append(to_np(y))
    if c["kind"] == "siblings":
        for b in range(3):
            close(np.stack([y[0][b] for y in ys]), ref(x[:, b, 0]), what=f"mapped lane {b}", atol=1e-3)
        close(np.concatenate([y[1] for y in ys]), ref(x[:, :, 1].reshape(-1, 3)), what="lifted unroll", atol=1e-3)
        close(np.stack([y[2] for y in ys]), ref(x[:, 0, 0]), what="plain sibling", atol=1e-3)
        for b in range(3):
            close(np.stack([y[3][b] for y in ys]), ref(x[:, b, 1]), what=f"second map, lane {b}", atol=1e-3)
        close(np.concatenate([y[4] for y in ys]), ref(x[:, :, 0].reshape(-1, 3)), what="second lifted unroll", atol=1e-3)
    elif c["kind"] == "vmap_unroll":
        for b in range(3):
            close(np.concatenate([y[b] for y in ys]), ref(x[:, b].reshape(-1, 3)), what=f"lane {b}", atol=1e-3)
    elif c["kind"] == "unroll_vmap":
        for b in range(2):
            close(np.concatenate([y[:, b] for y in ys]), ref(x[:, :, b].reshape(-1, 3)), what=f"lane {b}", atol=1e-3)
    else:
        for a in range(3):
            for b in range(2):
                close(np.stack([y[a, b] for y in ys]), ref(x[:, a, b]), what=f"lane {a},{b}", atol=1e-3)
    return c["kind"]


@R.facet(
    "flax_map",
    st.fixed_dictionaries({"x": matrix(4, 3), "z": matrix(4, 2), "mean": st.booleans(), "B": st.integers(1, 4)}),
    quick=60,
    thorough=1500,
    weight=2,
    secs=40,
)
def _(c):
    """the map of the second backend: the function on every element, averaged where asked"""
    from wax.flax.modules.vmap import VMap, create_vmap

    B = c["B"]
    x, z = arr(c["x"])[:B], arr(c["z"])[:B]

    def fun(u, v):
        return {"a": u * v[0], "b": (jnp.cumsum(u), v.sum())}

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = VMap(fun=fun, take_mean=c["mean"]) if B % 2 else create_vmap(fun, c["mean"])
        y, var = m.init_with_output(jax.random.PRNGKey(0), x, z)
        y2 = m.apply(var, x, z)
    each = [to_np(fun(jnp.asarray(u), jnp.asarray(v))) for u, v in zip(x, z)]
    full = jax.tree_util.tree_map(lambda *v: np.stack(v), *each)
    exp = jax.tree_util.tree_map(lambda v: v.mean(axis=0), full) if c["mean"] else full
    tree_close(to_np(y), exp, what="mapped", atol=1e-3)
    tree_close(to_np(y2), exp, what="mapped again", atol=1e-3)
    return "lanes" if B > 1 else None
