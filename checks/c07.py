"""C07: encodings are lossless and order preserving."""
import datetime

import jax.numpy as jnp
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from common import same
from harness import Registry

R = Registry(
    "C07",
    rule="a value needing both halves of the code, a negative value, an array with two or more distinct elements",
    assumptions=[
        "dates within the range of nanosecond dates, without time zone",
        "strings are decoded from codes of the shape they were fitted with, or of one dimension",
    ],
)
I64 = st.one_of(
    st.integers(-(2**63), 2**63 - 1),
    st.sampled_from([0, 1, -1, 2**31, 2**32, 2**32 - 1, -(2**31), -(2**32), -(2**32) - 1, 2**63 - 1, -(2**63), 2**33 + 5]),
    st.integers(-(2**34), 2**34),
)
# nanosecond dates: 1677..2262
NS = st.one_of(
    st.integers(-(2**63) + 1, 2**63 - 1),
    st.integers(-10 * 86400, 10 * 86400).map(lambda s: s * 10**9),
    st.integers(-20, 20).map(lambda d: d * 86400 * 10**9),
    st.integers(-20, 20).map(lambda d: d * 86400 * 10**9 - 1),
)
DAY = 86400 * 10**9
shapes = st.sampled_from([(), (1,), (3,), (2, 2), (4, 1), (1, 3), (2, 1, 2)])


def size(s):
    return int(np.prod(s, dtype=int))


def tag(v):
    return "negative" if v < 0 else ("both halves" if v >= 2**32 else None)


@R.facet("int64", st.fixed_dictionaries({"v": I64, "kind": st.sampled_from(["int", "int64", "array", "jax"])}), quick=6000, thorough=100000, weight=2, secs=40)
def _(c):
    from wax.encode import decode_int64, encode_int64

    v = c["v"]
    arg = {"int": v, "int64": np.int64(v), "array": np.array(v), "jax": v}[c["kind"]]
    code = encode_int64(arg)
    assert code.dtype == np.uint32 and code.shape == (2,), f"code {code!r}"
    back = decode_int64(jnp.asarray(code) if c["kind"] == "jax" else code)
    assert type(back) is int and back == v, f"{v} became {back}"
    return tag(v)


@R.facet("less", st.tuples(I64, st.one_of(I64, st.integers(-2, 2))), quick=6000, thorough=100000, weight=2, secs=40)
def _(c):
    from wax.encode import encode_int64, less

    a = c[0]
    b = c[1] if abs(c[1]) > 2 else max(-(2**63), min(2**63 - 1, a + c[1]))
    got = less(encode_int64(a), encode_int64(b))
    assert bool(got) == (a < b), f"less({a}, {b}) = {got}"
    got = less(jnp.asarray(encode_int64(a)), jnp.asarray(encode_int64(b))) if (a ^ b) % 16 == 0 else got
    assert bool(got) == (a < b), f"less({a}, {b}) = {got} on device codes"
    return "negative" if min(a, b) < 0 else "positive"


@R.facet("dates", st.fixed_dictionaries({"ns": NS, "unit": st.sampled_from(["ns", "us", "ms", "s", "m", "h", "D"])}), quick=4000, thorough=80000, weight=2, secs=40)
def _(c):
    """timestamps, datetimes and datetime64 scalars; floor of encoded and plain dates"""
    from wax import encode as E

    ns = max(c["ns"], -(2**63) + DAY + 1)
    d = np.datetime64(ns, "ns").astype(f"M8[{c['unit']}]")
    exact = int(d.astype("M8[ns]").astype(np.int64))
    if d.astype("M8[ns]").astype(f"M8[{c['unit']}]") != d or exact < -(2**63) + DAY:
        return None
    code = E.encode_datetime64(d)
    back = E.decode_datetime64(code)
    assert isinstance(back, np.datetime64) and back == d, f"{d} became {back}"
    same(code, E.encode_int64(exact), "code of the date")
    ts = pd.Timestamp(exact)
    tb = E.decode_timestamp(E.encode_timestamp(ts))
    assert isinstance(tb, pd.Timestamp) and tb == ts and tb.value == ts.value, f"{ts!r} became {tb!r}"
    py = datetime.datetime(1970, 1, 1) + datetime.timedelta(microseconds=exact // 1000)
    pb = E.decode_datetime(E.encode_datetime(py))
    assert type(pb) is datetime.datetime and pb == py, f"{py!r} became {pb!r}"
    # flooring to a day
    floor = (exact // DAY) * DAY
    f = E.floor_datetime(d)
    assert int(f.astype("M8[ns]").astype(np.int64)) == floor, f"floor of {d} is {f}"
    fk = E.floor_jax_datekey(jnp.asarray(code))
    assert E.decode_int64(np.asarray(fk)) == floor, f"floor of the code of {d} is {E.decode_datetime64(fk)}"
    assert E.decode_timestamp(np.asarray(fk)) == ts.floor("D"), "calendar day"
    return tag(exact)


@R.facet("floor_arrays", st.fixed_dictionaries({"shape": shapes, "ns": st.lists(NS, min_size=4, max_size=4), "unit": st.sampled_from(["ns", "us", "s"])}), quick=500, thorough=10000, weight=1, secs=30)
def _(c):
    from wax.encode import floor_datetime

    v = np.maximum(np.array(c["ns"][: size(c["shape"])], np.int64), -(2**63) + DAY + 1).view("M8[ns]").reshape(c["shape"]).astype(f"M8[{c['unit']}]")
    got = floor_datetime(v)
    exp = v.astype("M8[D]")
    assert np.shape(got) == v.shape and (got == exp).all(), f"floor of {v} is {got}"
    return "several" if v.size > 1 else None


@R.facet("date_arrays", st.fixed_dictionaries({"shape": shapes, "ns": st.lists(NS, min_size=4, max_size=4), "jax": st.booleans(), "nat": st.booleans()}), quick=500, thorough=10000, weight=2, secs=30)
def _(c):
    """dates in arrays of every shape"""
    from wax.encode import datetime64_encoder, encode_int64

    v = np.array(c["ns"][: size(c["shape"])], np.int64)
    if c["nat"]:
        v[-1] = -(2**63)
    v = v.view("M8[ns]").reshape(c["shape"])
    e = datetime64_encoder(v)
    code = e.encode(v)
    assert code.dtype == np.uint32 and code.shape == v.shape + (2,), f"codes {code!r}"
    for i in np.ndindex(*v.shape):
        same(code[i], encode_int64(int(v[i].astype(np.int64))), f"code {i}")
    back = e.decode(jnp.asarray(code) if c["jax"] else code)
    assert np.shape(back) == v.shape and (np.asarray(back).astype(np.int64) == v.astype(np.int64)).all(), f"{v} became {back}"
    return "several" if v.size > 1 else None


words = st.one_of(st.text(max_size=4), st.sampled_from(["a", "B", "aa", "ab", "é", "", " a", "Z"]))


@R.facet("strings", st.fixed_dictionaries({"shape": shapes, "w": st.lists(words, min_size=4, max_size=4), "sub": st.integers(0, 4)}), quick=600, thorough=15000, weight=2, secs=30)
def _(c):
    from wax.encode import string_encoder

    v = np.array([w.replace("\x00", "0") for w in c["w"][: size(c["shape"])]], dtype=str).reshape(c["shape"])
    e = string_encoder(v)
    code = np.asarray(e.encode(v))
    assert code.dtype.kind in "iu", f"codes {code!r}"
    back = np.asarray(e.decode(code))
    assert back.shape == v.shape and (back == v).all(), f"{v!r} became {back!r}"
    flat, fc = v.ravel().tolist(), code.ravel().tolist()
    for a, x in zip(flat, fc):
        for b, y in zip(flat, fc):
            assert (a < b) == (x < y), f"order of {a!r}, {b!r} and of the codes {x}, {y}"
    if v.ndim == 1 and c["sub"] < len(v):
        part = v[c["sub"] :][::-1]
        assert (np.asarray(e.decode(e.encode(part))) == part).all(), "part of the values"
    return "several" if len(set(flat)) > 1 else None


@R.facet(
    "many",
    st.fixed_dictionaries({"n": st.sampled_from([200, 300, 1000, 40000, 70000]), "seed": st.integers(0, 9999), "pool": st.sampled_from([2, 300, 10**6])}),
    quick=20,
    thorough=400,
    weight=1,
    secs=40,
)
def _(c):
    """hundreds to tens of thousands of different words and dates"""
    from wax.encode import datetime64_encoder, string_encoder

    rng = np.random.default_rng(c["seed"])
    v = np.array([f"w{i}" for i in rng.integers(0, c["pool"], c["n"])])
    e = string_encoder(v)
    code = np.asarray(e.encode(v))
    assert code.dtype.kind in "iu", f"codes {code!r}"
    assert (np.asarray(e.decode(code)) == v).all(), "words decoded to others"
    order = np.argsort(v, kind="stable")
    up, same_word = np.diff(code[order]), v[order][1:] == v[order][:-1]
    assert (up[~same_word] > 0).all() and (up[same_word] == 0).all(), "order of the codes"
    d = rng.integers(-(2**62), 2**62, (min(c["n"], 2000), 2)).view("M8[ns]")
    back = np.asarray(datetime64_encoder(d).decode(datetime64_encoder(d).encode(d)))
    assert back.shape == d.shape and (back == d).all(), "dates decoded to others"
    return "many words"


@R.facet(
    "datasets",
    st.fixed_dictionaries(
        {
            "n": st.integers(1, 4),
            "w": st.lists(words, min_size=8, max_size=8),
            "ns": st.lists(NS, min_size=8, max_size=8),
            "two_d": st.booleans(),
            "scalar": st.booleans(),
            "coord": st.booleans(),
        }
    ),
    quick=300,
    thorough=6000,
    weight=2,
    secs=40,
)
def _(c):
    """schema, encode and decode of a whole dataset"""
    import xarray as xr
    from wax.encode import decode_dataset, encode_dataset
    from wax.stream import Stream, dataset_to_numpy

    n = c["n"]
    w = np.array([v.replace("\x00", "0") for v in c["w"]], dtype=str)
    ns = np.array(c["ns"], np.int64).view("M8[ns]")
    t = np.datetime64("2021-01-01", "ns") + np.arange(n) * np.timedelta64(1, "D")
    v = {"x": (("t",), np.arange(n) / 4), "s": (("t",), w[:n]), "d": (("t",), ns[:n]), "i": (("t",), np.arange(n))}
    if c["two_d"]:
        v["s2"] = (("t", "c"), w[: 2 * n].reshape(n, 2))
        v["d2"] = (("t", "c"), ns[: 2 * n].reshape(n, 2))
    if c["scalar"]:
        v["s0"] = ((), w[0])
        v["d0"] = ((), ns[0])
    coords = {"t": t}
    if c["coord"] and c["two_d"]:
        coords["c"] = ["p", "q"]
    ds = xr.Dataset(v, coords=coords)
    schema = Stream.get_dataset_schema(ds, check=True)
    data = dataset_to_numpy(ds)
    keep = {k: np.array(a) for k, a in data.items()}
    enc = encode_dataset(schema.encoders, data)
    assert set(enc) == set(data), "variables"
    for k, a in enc.items():
        assert np.asarray(a).dtype.kind in "iuf", f"{k} is not device friendly: {np.asarray(a).dtype}"
    dec = decode_dataset(schema.encoders, enc)
    assert set(dec) == set(keep), "variables"
    for k, a in keep.items():
        assert np.shape(dec[k]) == a.shape and (np.asarray(dec[k]) == a).all(), f"{k}: {a!r} became {dec[k]!r}"
        assert (data[k] == a).all(), "input modified"
    return "strings and dates"


@R.facet("refused", st.one_of(st.floats(), st.text(max_size=2), st.lists(st.integers(0, 3), min_size=1, max_size=3)), quick=100, thorough=1000, weight=1, secs=20)
def _(v):
    """values of other types are refused, not encoded to something else"""
    from wax.encode import encode_datetime, encode_int64, encode_timestamp

    arg = np.array(v) if isinstance(v, list) else v
    for f in (encode_int64, encode_timestamp, encode_datetime):
        try:
            f(arg)
        except TypeError:
            continue
        raise AssertionError(f"{f.__name__}({arg!r}) was accepted")
    return "refused"
