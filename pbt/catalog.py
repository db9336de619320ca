"""Streaming programs built from library modules, as data.

An op is [name, {options}]; a program is a list of ops applied in a chain to a
vector observation (N,).  `hk_apply(op, x)` must run inside a haiku transform,
`fx_apply` inside a flax compact module.  Both return (output, chained vector).
"""
import jax.numpy as jnp
from hypothesis import strategies as st

NANV = "nan"


def _f(v):
    return jnp.nan if v == NANV else v


decay = st.sampled_from([["alpha", 0.5], ["alpha", 0.1], ["alpha", 0.9], ["com", 2.0], ["com", 5.0]])
adjust = st.sampled_from([True, False, "linear"])


def _d(o):
    return {o["decay"][0]: o["decay"][1]}


OPTS = {
    "ewma": st.fixed_dictionaries(
        {
            "decay": decay,
            "adjust": adjust,
            "ignore_na": st.booleans(),
            "min_periods": st.integers(0, 3),
            "initial_value": st.sampled_from([NANV, 0.0, 1.5]),
        }
    ),
    "ewmvar": st.fixed_dictionaries({"decay": decay, "adjust": adjust}),
    "ewmcov": st.fixed_dictionaries(
        {
            "decay": decay,
            "adjust": adjust,
            "ignore_na": st.booleans(),
            "min_periods": st.integers(0, 2),
            "assume_centered": st.booleans(),
        }
    ),
    "buffer": st.fixed_dictionaries(
        {"maxlen": st.integers(1, 5), "fill": st.sampled_from([NANV, 0.0, -7.0])}
    ),
    "lag": st.fixed_dictionaries({"lag": st.integers(1, 4), "fill": st.sampled_from([NANV, 0.0])}),
    "diff": st.just({}),
    "pct": st.fixed_dictionaries({"fillna_zero": st.booleans()}),
    "rolling": st.fixed_dictionaries({"horizon": st.integers(1, 5), "min_periods": st.integers(1, 3)}),
    "ffill": st.just({}),
    "fill": st.fixed_dictionaries({"value": st.sampled_from([0.0, -1.0, 3.5])}),
    "changed": st.just({}),
    "counter": st.just({}),
    "ohlc": st.fixed_dictionaries({"thr": st.sampled_from([0.0, 2.0, -3.0, 1e9])}),
}
HK_ONLY = {
    "arma": st.fixed_dictionaries(
        {
            "a": st.lists(st.sampled_from([0.5, -0.25, 0.0, 0.1]), min_size=1, max_size=3),
            "b": st.lists(st.sampled_from([0.5, -0.75, 1.0, 0.0]), min_size=1, max_size=3),
        }
    ),
    "snarimax": st.fixed_dictionaries({"p": st.integers(1, 3), "q": st.integers(0, 2)}),
}
VECTOR_OPS = ["ewma", "ewmvar", "buffer", "lag", "diff", "pct", "rolling", "ffill", "fill"]


def op(names=None, hk=True):
    opts = dict(OPTS, **(HK_ONLY if hk else {}))
    if names:
        opts = {k: v for k, v in opts.items() if k in names}
    return st.one_of([v.map(lambda o, k=k: [k, o]) for k, v in sorted(opts.items())])


def gated(inner):
    """event-gated op (haiku): the event is x[0] > thr."""
    return st.tuples(inner, st.sampled_from([0.0, 2.0])).map(
        lambda t: ["gate", {"inner": t[0], "thr": t[1]}]
    )


def program(hk=True, max_ops=3, gate=True):
    base = op(hk=hk)
    if hk and gate:
        base = st.one_of(base, base, base, gated(op(VECTOR_OPS)))
    return st.lists(base, min_size=1, max_size=max_ops)


# ------------------------------------------------------------------ haiku


def hk_module(o):
    import wax.modules as m

    name, p = o
    if name == "ewma":
        return m.EWMA(
            adjust=p["adjust"],
            ignore_na=p["ignore_na"],
            min_periods=p["min_periods"],
            initial_value=_f(p["initial_value"]),
            **_d(p),
        )
    if name == "ewmvar":
        return m.EWMVar(adjust=p["adjust"], **_d(p))
    if name == "buffer":
        return m.Buffer(p["maxlen"], fill_value=_f(p["fill"]))
    if name == "lag":
        return m.Lag(p["lag"], fill_value=_f(p["fill"]))
    if name == "diff":
        return m.Diff()
    if name == "pct":
        return m.PctChange(fillna_zero=p["fillna_zero"])
    if name == "rolling":
        return m.RollingMean(p["horizon"], min_periods=p["min_periods"])
    if name == "ffill":
        return m.Ffill()
    if name == "fill":
        return m.FillNanInf(fill_value=p["value"])
    raise KeyError(name)


def hk_apply(o, x):
    import haiku as hk
    import wax.modules as m
    from wax.modules.arma import ARMA
    from wax.modules.counter import Counter

    name, p = o
    if name == "gate":
        out = m.UpdateOnEvent(hk_module(p["inner"]))(x[0] > p["thr"], x)
        return out, (out[0] if out.ndim == 2 else out)
    if name == "ewmcov":
        out = m.EWMCov(
            adjust=p["adjust"],
            ignore_na=p["ignore_na"],
            min_periods=p["min_periods"],
            assume_centered=p["assume_centered"],
            **_d(p),
        )(x, x)
        return out, jnp.diag(out)
    if name == "changed":
        out = m.HasChanged()(x)
        return out, x
    if name == "counter":
        out = Counter()()
        return out, x + out.astype(x.dtype)
    if name == "ohlc":
        out = m.OHLC()(x, reset_on=x[0] > p["thr"])
        return tuple(out), out.HIGH
    if name == "arma":
        out = ARMA(jnp.array(p["a"]), jnp.array(p["b"]))(jnp.nan_to_num(x))
        return out, out
    if name == "snarimax":
        n = x.shape[0]
        reg = hk.Linear(n, w_init=lambda s, d: jnp.arange(s[0] * s[1], dtype=d).reshape(s) / 16 - 0.2)
        out, _ = m.SNARIMAX(p["p"], q=p["q"], regressor=reg)(jnp.nan_to_num(x))
        return out, out
    out = hk_module(o)(x)
    return out, (out[0] if out.ndim == 2 else out)


def hk_program(ops):
    def fun(x):
        outs = []
        for o in ops:
            out, x = hk_apply(o, x)
            outs.append(out)
        return {"outs": outs, "last": x}

    return fun


# ------------------------------------------------------------------ flax


def fx_module(o):
    import wax.flax.modules as m

    name, p = o
    if name == "ewma":
        return m.EWMA(
            adjust=p["adjust"],
            ignore_na=p["ignore_na"],
            min_periods=p["min_periods"],
            initial_value=_f(p["initial_value"]),
            **_d(p),
        )
    if name == "ewmvar":
        return m.EWMVar(adjust=p["adjust"], **_d(p))
    if name == "ewmcov":
        return m.EWMCov(
            adjust=p["adjust"],
            ignore_na=p["ignore_na"],
            min_periods=p["min_periods"],
            assume_centered=p["assume_centered"],
            **_d(p),
        )
    if name == "buffer":
        return m.Buffer(p["maxlen"], fill_value=_f(p["fill"]))
    if name == "lag":
        return m.Lag(p["lag"], fill_value=_f(p["fill"]))
    if name == "diff":
        return m.Diff()
    if name == "pct":
        return m.PctChange(fillna_zero=p["fillna_zero"])
    if name == "rolling":
        return m.RollingMean(p["horizon"], min_periods=p["min_periods"])
    if name == "ffill":
        return m.Ffill()
    if name == "fill":
        return m.FillNanInf(fill_value=p["value"])
    if name == "changed":
        return m.HasChanged()
    if name == "counter":
        return m.Counter()
    if name == "ohlc":
        return m.OHLC()
    raise KeyError(name)


def fx_apply(o, x):
    name, p = o
    mod = fx_module(o)
    if name == "ewmcov":
        out = mod(x, x)
        return out, jnp.diag(out)
    if name == "changed":
        return mod(x), x
    if name == "counter":
        out = mod()
        return out, x + out.astype(x.dtype)
    if name == "ohlc":
        out = mod(x, x[0] > p["thr"])
        return tuple(out), out.HIGH
    out = mod(x)
    return out, (out[0] if out.ndim == 2 else out)


def fx_program(ops):
    import flax.linen as nn

    class Program(nn.Module):
        @nn.compact
        def __call__(self, x):
            outs = []
            for o in ops:
                out, x = fx_apply(o, x)
                outs.append(out)
            return {"outs": outs, "last": x}

    return Program()
