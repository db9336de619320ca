"""Generators and oracles shared by the checks (numpy only, no wax code)."""
import math

import numpy as np
from hypothesis import strategies as st

NAN = float("nan")


def _val(b, nan, positive):
    if nan and b >= 208:  # 48/256
        return NAN
    k = b if not nan else b
    k = k % 160
    mag = (k + 1) // 2
    sgn = 1 if k % 2 else -1
    v = sgn * mag / 8.0
    if positive:
        v = mag / 8.0 + 0.125
    return v + 0.0


@st.composite
def floats_list(draw, n, nan=True, positive=False, specials=()):
    raw = draw(st.binary(min_size=n, max_size=n))
    out = [_val(b, nan, positive) for b in raw]
    return out


@st.composite
def matrix(draw, T, N, nan=True, positive=False, gaps=True):
    """T x N nested list; NaNs both scattered and in runs (leading, inner, full column)."""
    flat = draw(floats_list(T * N, nan=nan, positive=positive))
    x = [flat[i * N : (i + 1) * N] for i in range(T)]
    if nan and gaps:
        for _ in range(draw(st.integers(0, 2))):
            j = draw(st.integers(0, N - 1))
            a = draw(st.integers(0, T - 1))
            b = draw(st.integers(a, T))
            for t in range(a, b):
                x[t][j] = NAN
    return x


def arr(x, dtype=np.float32):
    return np.array(x, dtype=dtype)


def close(a, b, rtol=1e-4, atol=1e-4, what=""):
    """Equal up to tolerance; NaN positions and infinities must match exactly; shapes must match."""
    a = np.asarray(a)
    b = np.asarray(b)
    assert a.shape == b.shape, f"{what}: shape {a.shape} != expected {b.shape}"
    a64 = a.astype(np.float64)
    b64 = b.astype(np.float64)
    na, nb = np.isnan(a64), np.isnan(b64)
    assert (na == nb).all(), f"{what}: NaN pattern differs\n got {a64}\n expected {b64}"
    with np.errstate(invalid="ignore"):
        near = np.isfinite(b64) & (np.abs(a64 - b64) <= atol + rtol * np.abs(b64))
    ok = na | (a64 == b64) | near
    assert ok.all(), f"{what}: values differ\n got {a64}\n expected {b64}"


def same(a, b, what=""):
    a = np.asarray(a)
    b = np.asarray(b)
    assert a.shape == b.shape, f"{what}: shape {a.shape} != expected {b.shape}"
    assert a.dtype.kind == b.dtype.kind or {a.dtype.kind, b.dtype.kind} <= set("iu"), (
        f"{what}: dtype {a.dtype} vs {b.dtype}"
    )
    if a.dtype.kind == "f":
        eq = (a == b) | (np.isnan(a) & np.isnan(b))
    else:
        eq = a == b
    assert eq.all(), f"{what}: differs\n got {a}\n expected {b}"


def tree_close(a, b, rtol=1e-4, atol=1e-4, what=""):
    import jax

    la, ta = jax.tree_util.tree_flatten(a)
    lb, tb = jax.tree_util.tree_flatten(b)
    assert len(la) == len(lb), f"{what}: structure {ta} != {tb}"
    for i, (x, y) in enumerate(zip(la, lb)):
        close(x, y, rtol, atol, f"{what}[leaf {i}]")


def has_nan(x):
    return any(math.isnan(v) for row in x for v in (row if isinstance(row, list) else [row]))


def splits(T, max_chunks=4):
    """Cut points of range(T) into non-empty consecutive chunks."""
    return st.lists(st.integers(1, T - 1), min_size=1, max_size=max_chunks - 1, unique=True).map(
        sorted
    )


def chunks(x, cuts):
    pts = [0] + list(cuts) + [len(x)]
    return [x[a:b] for a, b in zip(pts[:-1], pts[1:])]


@st.composite
def history(draw, N=3, lengths=(3, 12, 12, 12, 50), nan=True, positive=False, scales=(1, 1, 1, 100, 0.01)):
    """A T x N history; T is taken from a few buckets so that compiled code is reused."""
    T = draw(st.sampled_from(list(lengths)))
    x = draw(matrix(T, N, nan=nan, positive=positive))
    s = draw(st.sampled_from(list(scales)))
    if s != 1:
        x = [[v * s for v in row] for row in x]
    return x


@st.composite
def long_case(draw, lengths=(600,), columns=(3,), nan=True, scales=(1, 1, 100, 0.01)):
    """A long history by its seed: eighths, scattered missing values and one long gap in one column."""
    T, N = draw(st.sampled_from(list(lengths))), draw(st.sampled_from(list(columns)))
    c = {"T": T, "N": N, "seed": draw(st.integers(0, 99999)), "scale": draw(st.sampled_from(list(scales)))}
    c["one_in"] = draw(st.sampled_from([0, 2, 5, 40])) if nan else 0
    c["gap"] = [draw(st.integers(0, N - 1)), draw(st.integers(0, T - 1)), draw(st.integers(0, T))] if nan else [0, 0, 0]
    # how often an event happens, how often a value changes
    c["rare"] = draw(st.sampled_from([3, 20, 100, 280]))
    return c


def long_data(c, salt=0, positive=False):
    """-> T x N float64"""
    rng = np.random.default_rng([c["seed"], salt])
    x = rng.integers(-80, 81, (c["T"], c["N"])) / 8.0
    if positive:
        x = np.abs(x) + 0.125
    x = x * c["scale"]
    if c["one_in"]:
        x[rng.integers(0, c["one_in"], x.shape) == 0] = np.nan
    j, a, n = c["gap"]
    x[a : a + n, j] = np.nan
    return x


def long_events(c, salt=0):
    """-> T booleans, one event in c["rare"] on average"""
    return np.random.default_rng([c["seed"], 7, salt]).integers(0, c["rare"], c["T"]) == 0


def long_holding(c, salt=0):
    """-> T x N integers that change rarely"""
    rng = np.random.default_rng([c["seed"], 11, salt])
    x = np.zeros((c["T"], c["N"]), np.int64)
    ev = long_events(c, salt)
    for t in range(1, c["T"]):
        x[t] = x[t - 1]
        if ev[t]:
            x[t, rng.integers(0, c["N"])] += rng.integers(1, 4)
    return x


def scale_of(x):
    a = np.abs(np.asarray(x, dtype=np.float64))
    a = a[np.isfinite(a)]
    return max(1.0, float(a.max())) if a.size else 1.0


def mixed_gap(x):
    """some column has a gap strictly between two observations"""
    a = np.isnan(np.asarray(x, dtype=np.float64))
    for j in range(a.shape[1]):
        obs = np.flatnonzero(~a[:, j])
        if len(obs) >= 2 and obs[-1] - obs[0] + 1 > len(obs):
            return True
    return False


def via(*classes, coin=None):
    """Flax module classes, constructed by the class or by its create_* factory.

    The factories take the options of the constructor: which of both is used follows
    from the options (or from `coin`), so that a replayed case takes the same way.
    """
    import inspect
    import sys
    import zlib

    def one(cls):
        wanted = "create" + cls.__name__.lower()
        module = sys.modules[cls.__module__]
        factory = next((v for k, v in vars(module).items() if k.replace("_", "").lower() == wanted), None)
        if factory is None:
            return cls
        sig = inspect.signature(factory)

        def make(*args, **kwargs):
            text = repr((coin, cls.__name__)) if coin is not None else repr((cls.__name__, [a for a in args if not callable(a)], sorted((k, v) for k, v in kwargs.items() if not callable(v))))
            if zlib.crc32(text.encode()) % 2:
                try:
                    bound = sig.bind(*args, **kwargs)
                except TypeError:  # an option that only the constructor has
                    return cls(*args, **kwargs)
                return factory(*bound.args, **bound.kwargs)
            return cls(*args, **kwargs)

        return make

    made = tuple(one(c) for c in classes)
    return made[0] if len(made) == 1 else made


class Via:
    """A module whose classes are seen through `via`."""

    def __init__(self, module):
        self._module = module

    def __getattr__(self, name):
        return via(getattr(self._module, name))


# ------------------------------------------------------------------ arguments are left as they were


def picture(x):
    """containers, their keys and types, and copies of the values"""
    if hasattr(x, "items"):
        return type(x).__name__, [(k, picture(v)) for k, v in x.items()]
    if isinstance(x, list | tuple):
        return type(x).__name__, [picture(v) for v in x]
    if hasattr(x, "shape"):
        return np.array(x, copy=True)
    return x


def _alike(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return (
            isinstance(a, np.ndarray)
            and isinstance(b, np.ndarray)
            and a.dtype == b.dtype
            and a.shape == b.shape
            and a.tobytes() == b.tobytes()
        )
    if isinstance(a, list | tuple) and isinstance(b, list | tuple):
        return type(a) is type(b) and len(a) == len(b) and all(map(_alike, a, b))
    return a is b or a == b


class Untouched:
    """remembers what arguments were, to find any change a call made to them"""

    def __init__(self, *trees):
        self.trees, self.before = trees, picture(trees)

    def check(self, what="arguments"):
        now = picture(self.trees)
        assert _alike(self.before, now), f"{what} modified by the call: {now} instead of {self.before}"
