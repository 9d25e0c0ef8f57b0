"""Reference models: the definitions, written as directly as possible, and tolerant comparisons."""
import numpy as np


def close(a, b, rtol=1e-9, scale=None, atol=0.0):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return bool(np.array_equal(np.isnan(a), np.isnan(b)) and np.array_equal(a[~np.isnan(a)], b[~np.isnan(b)]))
    s = scale if scale is not None else max(np.max(np.abs(a)), np.max(np.abs(b)))
    return bool(np.max(np.abs(a - b)) <= rtol * s + atol + 1e-300)


def worst(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return "shapes %s and %s" % (a.shape, b.shape)
    with np.errstate(all="ignore"):
        d = np.abs(a - b)
    i = np.unravel_index(int(np.argmax(np.where(np.isfinite(d), d, np.inf))), d.shape) if d.size else ()
    return "differ by %.3g at %s: %r vs %r" % (d[i] if d.size else 0, i, a[i] if d.size else None, b[i] if d.size else None)


def set_col(X, f, v):
    Z = np.array(X, dtype=float)
    Z[:, f] = v
    return Z


def ice(model, X, f, xs):
    """(T, N) matrix of individual responses."""
    return np.stack([np.asarray(model(set_col(X, f, x)), dtype=float) for x in xs])


def dice(jac, X, f, xs):
    return np.stack([np.asarray(jac(set_col(X, f, x)), dtype=float)[:, f] for x in xs])


def bin_of(x, limits):
    """Half-open bins [l_k, l_k+1), the last one closed."""
    k = len(limits) - 1
    return np.clip(np.searchsorted(limits, x, side="right") - 1, 0, k - 1)


def interp_gaps(v):
    v = np.array(v, dtype=float)
    ok = np.isfinite(v)
    i = np.arange(len(v))
    v[~ok] = np.interp(i[~ok], i[ok], v[ok])
    return v


def bin_stats(x, e, limits):
    """Mean effect, variance (>= 2 points) and counts per bin, gaps not filled."""
    k = len(limits) - 1
    idx = bin_of(x, limits)
    mean, var, cnt = np.full(k, np.nan), np.full(k, np.nan), np.zeros(k, dtype=int)
    for b in range(k):
        s = e[idx == b]
        cnt[b] = len(s)
        if len(s):
            mean[b] = s.mean()
        if len(s) > 1:
            var[b] = np.mean((s - s.mean()) ** 2)
    return mean, var, cnt


def accumulate(x, limits, slope):
    """Integral from limits[0] to x of the piecewise-constant slope; constant outside of the limits."""
    out = np.zeros(len(x))
    for k in range(len(slope)):
        out += slope[k] * np.clip(np.asarray(x) - limits[k], 0.0, limits[k + 1] - limits[k])
    return out


def ale_local(model, X, f, limits):
    idx = bin_of(X[:, f], limits)
    hi = np.asarray(model(set_col(X, f, limits[idx + 1])), dtype=float)
    lo = np.asarray(model(set_col(X, f, limits[idx])), dtype=float)
    return (hi - lo) / (limits[idx + 1] - limits[idx])
