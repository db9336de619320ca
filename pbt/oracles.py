"""Reference models in float64 numpy / plain python, written from the definitions."""
import math

import numpy as np


def com_of(decay):
    name, v = decay
    return float(v) if name == "com" else 1.0 / float(v) - 1.0


def _ewma_col(x, com, adjust, ignore_na, min_periods, initial_value):
    """One column.  Returns (values, number of observations so far, effective com)."""
    alpha = 1.0 / (1.0 + com)
    out, nobs_out, ce_out = [], [], []
    nobs = 0
    if adjust == "linear":
        mean = float(initial_value)
        w = 1.0  # weight of the running mean
        for v in x:
            obs = not math.isnan(v)
            if math.isnan(mean):
                base = 0.0
            else:
                if obs:
                    base = min(w, com)
                elif ignore_na:
                    base = min(w, com)
                else:
                    base = min(w, com) * (max(0.0, (w - 1.0) / w) if w > 0 else 0.0)
            ce_out.append(base)
            if obs:
                mean = v if math.isnan(mean) else (base * mean + v) / (base + 1.0)
                w = base + 1.0
                nobs += 1
            else:
                w = base
            out.append(mean if nobs >= min_periods else math.nan)
            nobs_out.append(nobs)
        return out, nobs_out, ce_out

    # weights of the definition: age of an observation counted in steps or in observations
    items = []  # [age, value]
    if not math.isnan(initial_value):
        items.append([0, float(initial_value)])
    if adjust:
        mean = float(initial_value)
        for v in x:
            obs = not math.isnan(v)
            if obs or not ignore_na:
                for it in items:
                    it[0] += 1
            ce_out.append(sum((1 - alpha) ** a for a, _ in items))
            if obs:
                items.append([0, v])
                nobs += 1
                num = sum((1 - alpha) ** a * u for a, u in items)
                den = sum((1 - alpha) ** a for a, _ in items)
                mean = num / den
            out.append(mean if nobs >= min_periods else math.nan)
            nobs_out.append(nobs)
    else:
        mean = float(initial_value)
        gap = 0
        for v in x:
            obs = not math.isnan(v)
            if obs or not ignore_na:
                gap += 1
            w = 0.0 if math.isnan(mean) else (1 - alpha) ** gap
            ce_out.append(w / alpha)
            if obs:
                mean = v if math.isnan(mean) else (w * mean + alpha * v) / (w + alpha)
                gap = 0
                nobs += 1
            out.append(mean if nobs >= min_periods else math.nan)
            nobs_out.append(nobs)
    return out, nobs_out, ce_out


def ewma(x, com, adjust=True, ignore_na=False, min_periods=0, initial_value=math.nan):
    """x: (T, ...) -> dict(mean, nobs, com_eff) of the same shape."""
    x = np.asarray(x, dtype=np.float64)
    flat = x.reshape(len(x), -1)
    cols = [
        _ewma_col(flat[:, j], com, adjust, ignore_na, min_periods, initial_value)
        for j in range(flat.shape[1])
    ]
    return {
        k: np.array([c[i] for c in cols], dtype=np.float64).T.reshape(x.shape)
        for i, k in enumerate(("mean", "nobs", "com_eff"))
    }


def ewmvar(x, com, adjust=True):
    """Weighted mean of squares minus square of the weighted mean, gaps ignored.

    adjust=True : weights (1-alpha)^age ; adjust=False: recursive filter;
    'linear': the plain moments until the window of the decay is filled.
    Computed around the first observation (shift invariant) for accuracy.
    """
    x = np.asarray(x, dtype=np.float64)
    flat = x.reshape(len(x), -1)
    out = np.full(flat.shape, np.nan)
    alpha0 = 1.0 / (1.0 + com)
    for j in range(flat.shape[1]):
        vals, w = [], []
        n = 0
        var = math.nan
        for t, v in enumerate(flat[:, j]):
            if not math.isnan(v):
                n += 1
                if adjust == "linear":
                    a = 1.0 / min(n, 1.0 / alpha0)
                elif adjust:
                    a = alpha0 / (1.0 - (1.0 - alpha0) ** n) if alpha0 < 1 else 1.0
                else:
                    a = alpha0 if n > 1 else 1.0
                w = [u * (1 - a) for u in w] + [a]
                vals.append(v)
                c = np.array(vals) - vals[0]
                m1 = float(np.dot(w, c))
                var = max(0.0, float(np.dot(w, c * c)) - m1 * m1)
            elif n == 0:
                var = 0.0
            out[t, j] = var
    return out.reshape(x.shape)
