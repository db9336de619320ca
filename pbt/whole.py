"""Data without missing values may be held as integers or booleans: the same numbers give the same results.

`register(R, ops, ...)` adds the facet `whole_numbers`: a program of catalogue ops on an integer
history against the same program on the same history as floating point numbers.
"""
import jax
import numpy as np
from hypothesis import strategies as st

import catalog
from common import close
from run import cached, fx_scan, hk_scan, to_np


def build(backend, ops, dtype):
    if backend == "haiku":
        return hk_scan(catalog.hk_program(ops))
    return fx_scan(lambda: catalog.fx_program(ops))


get = cached(build, maxsize=96)
TYPES = ["int32", "int32", "int16", "int8", "uint8", "uint32", "bool"]


@st.composite
def whole_case(draw, ops, backends, types):
    dtype = draw(st.sampled_from(types))
    lo, hi = {"int8": (-120, 120), "uint8": (0, 255), "bool": (0, 1), "int16": (-30000, 30000)}.get(dtype, (-90000, 90000))
    if dtype.startswith("u"):
        lo = 0
    big = draw(st.booleans())
    if not big:
        lo, hi = max(lo, -9), min(hi, 9)
    T = draw(st.sampled_from([3, 12, 12, 40]))
    x = draw(st.lists(st.lists(st.integers(lo, hi), min_size=3, max_size=3), min_size=T, max_size=T))
    return {"backend": draw(st.sampled_from(backends)), "op": draw(ops), "dtype": dtype, "x": x}


def register(R, ops, backends=("haiku", "flax"), quick=40, thorough=900, weight=2, secs=40, types=TYPES):
    @R.facet("whole_numbers", whole_case(ops, list(backends), list(types)), quick=quick, thorough=thorough, weight=weight, secs=secs)
    def _(c):
        x = np.asarray(c["x"]).astype(c["dtype"])
        got, _, _ = to_np(get(c["backend"], [c["op"]], c["dtype"])(x))
        want, _, _ = to_np(get(c["backend"], [c["op"]], "float32")(x.astype(np.float32)))
        scale = max(1.0, float(np.abs(x.astype(float)).max()))
        lg, lw = jax.tree_util.tree_leaves(got["outs"]), jax.tree_util.tree_leaves(want["outs"])
        assert len(lg) == len(lw)
        for g, w in zip(lg, lw):
            close(g.astype(np.float64), w.astype(np.float64), 1e-5, 1e-5 * scale**2, f"{c['op'][0]} of {c['dtype']} data")
        return "several values" if len(np.unique(x)) > 1 else None


# ------------------------------------------------------------ double precision

SHIFT = float(2**22)
EQUIVARIANT = {"ewma", "buffer", "lag", "rolling", "ffill", "diff"}


def build64(backend, ops):
    return build(backend, ops, None)


get64 = cached(build64, maxsize=96)


def register_double(R, ops, backends=("haiku", "flax"), quick=24, thorough=600, weight=2.5, secs=40):
    """With 64-bit floats switched on: same results, in 64 bits all the way (nothing is rounded in between)."""
    from common import arr, history

    @R.facet(
        "double_precision",
        st.fixed_dictionaries({"backend": st.sampled_from(list(backends)), "op": ops, "x": history(lengths=(3, 12, 40), scales=(1, 100))}),
        quick=quick,
        thorough=thorough,
        weight=weight,
        secs=secs,
    )
    def _(c):
        x = np.array(c["x"], dtype=np.float64)
        name, p = c["op"]
        want, _, _ = to_np(get(c["backend"], [c["op"]], "float32")(x.astype(np.float32)))
        with jax.enable_x64(True):
            run = get64(c["backend"], [c["op"]])
            got, _, _ = to_np(run(x))
            nan_start = all(p.get(k, "nan") == "nan" for k in ("initial_value", "fill"))
            moved = to_np(run(x + SHIFT)[0]) if name in EQUIVARIANT and nan_start else None
        a = np.abs(x[np.isfinite(x)])
        scale = max(1.0, float(a.max())) if a.size else 1.0
        for g, w in zip(jax.tree_util.tree_leaves(got["outs"]), jax.tree_util.tree_leaves(want["outs"])):
            if w.dtype == np.float32:
                assert g.dtype == np.float64, f"{name}: {g.dtype} output of 64-bit data"
            big = max(1.0, float(np.abs(np.nan_to_num(w.astype(np.float64), posinf=0, neginf=0)).max()))
            close(g.astype(np.float64), w.astype(np.float64), 1e-3, 1e-4 * max(scale**2, big), f"{name} in 64 bits against 32 bits")
        if moved is not None:
            for g, m in zip(jax.tree_util.tree_leaves(got["outs"]), jax.tree_util.tree_leaves(moved["outs"])):
                close(m - (0.0 if name == "diff" else SHIFT), g, 0.0, 1e-6 * scale, f"{name} of shifted data")
        return "shifted data" if moved is not None else "64 bits"


# ------------------------------------------------------------ data of any scale

# the power of the data scale that each op follows (ops left out have thresholds of their own)
DEGREE = {
    "ewma": 1, "ewmvar": 2, "ewmcov": 2, "buffer": 1, "lag": 1, "diff": 1, "pct": 0,
    "rolling": 1, "ffill": 1, "changed": 0, "counter": 0, "ohlc": 1, "arma": 1, "fill": 1,
}


def scaled_op(names):
    """ops without constants in units of the data"""
    def free(o):
        return all(o[1].get(k, "nan") in ("nan", 0.0) for k in ("initial_value", "fill", "thr", "value"))

    return catalog.op(names, hk=True).filter(free)


def register_scaled(R, names, backends=("haiku", "flax"), quick=40, thorough=900, weight=2, secs=40):
    """Data in other units: the same results in these units, for powers of two from 1e-9 to 1e9."""
    from common import history

    @R.facet(
        "scaled",
        st.fixed_dictionaries(
            {
                "backend": st.sampled_from(list(backends)), "op": scaled_op(names),
                "x": history(lengths=(3, 12, 25), scales=(1,)), "power": st.sampled_from([-30, -20, -10, 10, 20, 30]),
            }
        ),
        quick=quick, thorough=thorough, weight=weight, secs=secs,
    )
    def _(c):
        x = np.array(c["x"], dtype=np.float32)
        name, _ = c["op"]
        run = get(c["backend"], [c["op"]], "float32")
        s = 2.0 ** c["power"]
        want, _, _ = to_np(run(x))
        got, _, _ = to_np(run((x * s).astype(np.float32)))
        a = np.abs(x[np.isfinite(x)])
        scale = max(float(a.max()), 2.0**-6) if a.size else 1.0
        d = DEGREE[name]
        for g, w in zip(jax.tree_util.tree_leaves(got["outs"]), jax.tree_util.tree_leaves(want["outs"])):
            if d and g.dtype == np.float32:
                g = g.astype(np.float64) / s**d
            close(np.asarray(g, np.float64), w.astype(np.float64), 1e-6, 1e-6 * scale**d, f"{name} of data scaled by {s}")
        return "scaled by 1e3 or more" if a.size and a.max() > 0 else None
