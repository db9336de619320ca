"""C18: online Newton against the dense inverse of the accumulated curvature (float64)."""
import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np
import optax
from hypothesis import strategies as st

from common import arr, floats_list, matrix
from harness import Registry
from run import cached, hk_scan, to_np

R = Registry(
    "C18",
    rule="at least two non-zero gradients of a block with several entries that are not multiples of each other",
    assumptions=[
        "curvature well conditioned for the precision in use (single precision: regularisation >= 0.05, gradients below 2)",
    ],
)



def enable_x64():
    return jax.enable_x64(True)


SHAPES = {"scalar": (), "vector": (3,), "one": (1,), "matrix": (2, 2), "cube": (2, 1, 2), "long": (6,)}
TREES = {
    "single": ["vector"],
    "two": ["vector", "scalar"],
    "blocks": ["matrix", "vector", "one"],
    "deep": ["cube", "scalar", "long"],
    "equal": ["vector", "vector", "vector"],
}
LR = {
    "const": lambda: (0.3, lambda t: 0.3),
    "one": lambda: (1.0, lambda t: 1.0),
    "schedule": lambda: (optax.exponential_decay(0.5, 2, 0.5), lambda t: 0.5 * 0.5 ** (t / 2)),
    "step": lambda: (lambda n: 1.0 / (n + 1.0), lambda t: 1.0 / (t + 1)),
}


def pack(blocks, dtype, form):
    blocks = [jnp.asarray(b, dtype) for b in blocks]
    if form == "list":
        return blocks
    if form == "nested" and len(blocks) > 1:
        return {"m": {"w": blocks[0]}, "n": tuple(blocks[1:])}
    if form == "bare" and len(blocks) == 1:
        return blocks[0]
    return {f"p{i}": b for i, b in enumerate(blocks)}


def reference(grads, eps, lr):
    """grads: list over steps of list over blocks; returns the updates"""
    A = [eps * np.eye(max(1, b.size)) for b in grads[0]]
    out = []
    for t, g in enumerate(grads):
        row = []
        for i, b in enumerate(g):
            v = b.reshape(-1).astype(np.float64)
            A[i] = A[i] + np.outer(v, v)
            row.append(lr(t) * np.linalg.solve(A[i], v).reshape(b.shape))
        out.append(row)
    return out


@st.composite
def case(draw, f32):
    tree = draw(st.sampled_from(sorted(TREES)))
    T = draw(st.sampled_from([1, 3, 8, 8, 30]))
    sizes = [int(np.prod(SHAPES[s])) for s in TREES[tree]]
    raw = draw(floats_list(T * sum(sizes), nan=False))
    zero = draw(st.lists(st.integers(0, T - 1), max_size=3))
    return {
        "tree": tree,
        "T": T,
        "g": raw,
        "zero": zero,
        "scale": draw(st.sampled_from([0.2, 0.05] if f32 else [1.0, 0.1, 0.01])),
        "eps": draw(st.sampled_from([0.05, 0.3, 1.0, 5.0] if f32 else [1e-7, 1e-5, 1e-3, 0.3, 10.0])),
        "lr": draw(st.sampled_from(sorted(LR))),
        "form": draw(st.sampled_from(["dict", "list", "nested", "bare"])),
        "mode": draw(st.sampled_from(["eager", "jit", "scan"])),
        "sign": draw(st.sampled_from(["newton", "scale"])),
    }


def gradients(c):
    sizes = [int(np.prod(SHAPES[s])) for s in TREES[c["tree"]]]
    a = np.array(c["g"]).reshape(c["T"], sum(sizes)) * c["scale"]
    a[c["zero"]] = 0.0
    out = []
    for t in range(c["T"]):
        row, k = [], 0
        for s, n in zip(TREES[c["tree"]], sizes):
            row.append(a[t, k : k + n].reshape(SHAPES[s]))
            k += n
        out.append(row)
    return out


def execute(c, grads, dtype):
    from wax.optim.newton import newton, scale_by_newton

    lr, f = LR[c["lr"]]()
    opt = newton(lr, eps=c["eps"]) if c["sign"] == "newton" else scale_by_newton(eps=c["eps"])
    params = pack([np.ones_like(b) * 0.7 for b in grads[0]], dtype, c["form"])
    gs = [pack(g, dtype, c["form"]) for g in grads]
    state = opt.init(params)
    if c["mode"] == "scan":
        stacked = jax.tree_util.tree_map(lambda *a: jnp.stack(a), *gs)

        def step(s, g):
            u, s = opt.update(g, s, params)
            return s, u

        _, us = jax.lax.scan(step, state, stacked)
        us = [jax.tree_util.tree_map(lambda a: a[t], us) for t in range(len(gs))]
    else:
        update = jax.jit(opt.update) if c["mode"] == "jit" else opt.update
        us = []
        for g in gs:
            u, state = update(g, state, params)
            us.append(u)
    sign = -1.0 if c["sign"] == "newton" else 1.0
    want = reference(grads, c["eps"], f if c["sign"] == "newton" else (lambda t: 1.0))
    return us, gs, want, sign


def rank2(grads):
    for i in range(len(grads[0])):
        m = np.array([g[i].reshape(-1) for g in grads])
        if m.shape[1] > 1 and np.linalg.matrix_rank(m) > 1:
            return "several independent gradients"
    return None


def compare(us, gs, want, sign, rtol, atol):
    for t, (u, g, w) in enumerate(zip(us, gs, want)):
        assert jax.tree_util.tree_structure(u) == jax.tree_util.tree_structure(g), f"step {t}: structure"
        for a, b in zip(jax.tree_util.tree_leaves(u), w):
            a = np.asarray(a, np.float64)
            assert a.shape == b.shape, f"step {t}: shape {a.shape} for {b.shape}"
            tol = atol + rtol * np.abs(b).max(initial=0)
            assert (np.abs(a - sign * b) <= tol).all(), f"step {t}: update {a}, expected {sign * b}"


@R.facet("double", case(False), quick=250, thorough=20000, weight=3, secs=90)
def _(c):
    grads = gradients(c)
    with enable_x64():
        us, gs, want, sign = execute(c, grads, np.float64)
        us = to_np(us)
    # relative error of the recursion grows with |g|^2/eps
    big = max((float((b**2).sum()) for g in grads for b in g), default=0.0)
    cond = 1 + len(grads) * big / c["eps"]
    if cond > 1e9:
        return None
    compare(us, gs, want, sign, rtol=1e-13 * cond + (1e-9 if c["lr"] in ("const", "one") else 1e-6), atol=1e-12)
    return rank2(grads)


@R.facet("single", case(True), quick=250, thorough=20000, weight=3, secs=90)
def _(c):
    grads = [[b.astype(np.float32).astype(np.float64) for b in g] for g in gradients(c)]
    us, gs, want, sign = execute(c, grads, np.float32)
    big = max((float((b**2).sum()) for g in grads for b in g), default=0.0)
    cond = 1 + len(grads) * big / c["eps"]
    if cond > 2000:
        return None
    compare(to_np(us), gs, want, sign, rtol=1e-5 + 4e-6 * cond, atol=1e-5)
    return rank2(grads)


@R.facet(
    "rank_one_inverse",
    st.fixed_dictionaries({"n": st.integers(1, 5), "m": floats_list(25, nan=False), "u": floats_list(5, nan=False),
                           "v": floats_list(5, nan=False), "same": st.booleans()}),
    quick=200, thorough=10000,
)
def _(c):
    from wax.optim.newton import sherman_morrison

    n = c["n"]
    A = np.array(c["m"]).reshape(5, 5)[:n, :n] / 10
    A = A @ A.T * 0.5 + np.eye(n) + 0.3 * (A - A.T)  # well conditioned, not symmetric
    u = np.array(c["u"])[:n] / 5
    v = u if c["same"] else np.array(c["v"])[:n] / 5
    inv = np.linalg.inv(A)
    den = 1 + u @ inv @ v
    if abs(den) < 0.1:
        return None
    keep = inv.copy()
    with enable_x64():
        got = np.asarray(
            sherman_morrison(jnp.asarray(inv), jnp.asarray(u), jnp.asarray(v)))
    assert (inv == keep).all()
    want = np.linalg.inv(A + np.outer(u, v))
    assert np.allclose(got, want, rtol=1e-7, atol=1e-8), f"got {got} expected {want}"
    return "update of several directions" if n > 1 and np.abs(u).max() > 0 and np.abs(v).max() > 0 else None


# ------------------------------------------------------------------ inside an online learner


def build(lr, eps, backend):
    from wax.optim.newton import newton

    if backend == "haiku":
        from wax.modules import OnlineOptimizer

        def model(x, y):
            w = hk.get_parameter("w", [3], init=jnp.zeros)
            b = hk.get_parameter("b", [], init=jnp.zeros)
            p = x @ w + b
            return (y - p) ** 2, p

        return hk_scan(lambda x, y: OnlineOptimizer(model, newton(lr, eps=eps), return_params=True)(x, y))


learner = cached(build)


@R.facet(
    "least_squares",
    st.fixed_dictionaries({"x": matrix(12, 4, nan=False), "miss": st.lists(st.integers(0, 11), max_size=3),
                           "lr": st.sampled_from([0.1, 0.5]), "eps": st.sampled_from([0.3, 2.0])}),
    quick=120, thorough=5000, weight=2,
)
def _(c):
    a = arr(c["x"]) / 5
    x, y = a[:, :3], a[:, 3].copy()
    y[c["miss"]] = np.nan
    out = to_np(learner(c["lr"], c["eps"], "haiku")(x, y)[0])
    w, b = np.zeros(3), 0.0
    A, B = c["eps"] * np.eye(3), c["eps"]
    for t in range(len(x)):
        p = x[t].astype(float) @ w + b
        assert np.allclose(out.model_info[t], p, rtol=2e-3, atol=2e-4), f"prediction at {t}: {out.model_info[t]} != {p}"
        r = -2 * (y[t] - p)
        if np.isfinite(r):
            g, h = r * x[t].astype(float), r
            A, B = A + np.outer(g, g), B + h * h
            w = w - c["lr"] * np.linalg.solve(A, g)
            b = b - c["lr"] * h / B
        got = [v for d in out.params.values() for v in (d["w"][t], d["b"][t])]
        assert np.allclose(got[0], w, rtol=2e-3, atol=2e-4), f"weights at {t}: {got[0]} != {w}"
        assert np.allclose(got[1], b, rtol=2e-3, atol=2e-4), f"intercept at {t}: {got[1]} != {b}"
    return "learning" if np.abs(np.diff(a, axis=0)).max() > 0 else None
