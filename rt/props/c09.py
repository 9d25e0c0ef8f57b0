"""C09: SHAP dependence plots: exact Shapley values, their smoothing spline and the spline of its residuals."""
import itertools
import math
import numpy as np
from scipy.interpolate import UnivariateSpline
from rt import gen, ref, methods, figs
from rt.harness import Skip

WARM = methods.warm
RULE = ("random data (D <= 5, N <= 70, some with D <= 2 and N <= 180; values on a grid with many ties), axis limits and black boxes (arbitrary hash functions "
        "included); Shapley values by brute force over all coalitions; non-trivial: values that differ and are not all zero")
CASES = {"quick": 1000, "thorough": 16000}
REQUIRED = ["shapley_values", "curves", "std_curves", "ties", "dropped_by_limits", "hash_models", "few_unique", "extrapolated",
            "efficiency", "sampled_backgrounds"]
ASSUMPTIONS = ["beyond 100 in-range instances, either all of them or the 100 that shap samples serve as the background",
               "distinct values of a feature differ by more than the 1e-5 (relative) to which shap identifies them"]


def shapley(model, X, f, B=None):
    """Shapley value of feature f for every row of X, with B (X itself, by default) as the background (one player per
    feature)."""
    n, d = X.shape
    B = X if B is None else B
    b = len(B)
    others = [j for j in range(d) if j != f]

    def v(S):
        """Mean output with the features in S from the explained row, the others from the background."""
        Z = np.tile(B, (n, 1)).reshape(n, b, d).copy()       # [explained, background]
        for j in S:
            Z[:, :, j] = X[:, j][:, None]
        return np.asarray(model(Z.reshape(n * b, d)), dtype=float).reshape(n, b).mean(axis=1)
    phi = np.zeros(n)
    for k in range(d):
        w = math.factorial(k) * math.factorial(d - k - 1) / math.factorial(d)
        for S in itertools.combinations(others, k):
            phi += w * (v(S + (f,)) - v(S))
    return phi


def fit(x, y):
    u, inv, cnt = np.unique(x, return_inverse=True, return_counts=True)
    m = np.array([y[inv == i].sum() for i in range(len(u))]) / cnt
    return UnivariateSpline(u, m, w=np.sqrt(cnt), k=min(3, len(u) - 1), s=len(x))


def curves(x, y, xs):
    o = np.argsort(x, kind="stable")
    x, y = x[o], y[o]
    s = fit(x, y)
    return s(xs), np.maximum(fit(x, np.abs(y - s(x)))(xs), 0.0)


def scen(ctx, rng, large=False):
    if large:
        d = int(rng.choice([1, 2]))
        n = int(rng.choice([99, 100, 101, 102, 105, int(rng.integers(101, 180))]))
    else:
        d = int(rng.choice([1, 2, 3, 4, 5], p=[.1, .3, .3, .2, .1]))
        n = gen.pick_n(rng, 2, {1: 70, 2: 70, 3: 60, 4: 40, 5: 30}[d], big=0)
    X, kk = gen.dataset(rng, n, d, [str(rng.choice([k for k in gen.COLS if k not in ("offset", "tiny")])) for _ in range(d)])
    top = np.abs(X).max(axis=0)
    if np.any(top < 1e-2):
        raise Skip("tiny")
    step = 10.0 ** np.floor(np.log10(top)) / (100 if rng.random() < 0.7 else 5)
    X = np.round(X / step) * step
    f = int(rng.integers(d))
    lim, how = gen.limits(rng, X)
    L = gen.full_limits(X, lim)
    if not methods.valid_feature(X, L, f):
        raise Skip("degenerate feature")
    X0 = X
    model = gen.model(rng, X)
    if rng.random() < 0.3:
        model = gen.Scaled(model, float(10 ** rng.uniform(-3, 4)), float(rng.normal() * 100))
    fe = methods.make("shap", X, model, lim)
    cen = methods.CENTERINGS[int(rng.integers(4))] if rng.random() < 0.5 else False
    fe.fit(f, centering=cen)
    R = X0[gen.in_range(X0, L, f)]
    with methods.silent():
        fe.plot(f, heterogeneity="shap_values")
    fig = figs.take()
    marks = [l for l in fig[0][0]["lines"] if l["style"][1] == "x"]
    px, py = max(marks, key=lambda l: len(l["x"]))["x"], max(marks, key=lambda l: len(l["x"]))["y"]
    out = np.abs(model(R)).max()
    ctx.check(len(px) == len(R), "pairs", lambda: "%d pairs for %d in-range instances" % (len(px), len(R)))
    want = shapley(model, R, f)
    if len(R) > 100:
        import shap
        B = shap.maskers.Independent(R).data
        ctx.ev("sampled_backgrounds", len(B) < len(R))
        b = shapley(model, R, f, B)
        o = np.lexsort((py, px))
        if ref.close(py[o], b[np.lexsort((b, R[:, f]))], 1e-9, max(out, 1e-300)):
            want = b
    # pairs, as a multiset: ordered by value, ties matched by their (tolerantly equal) Shapley values
    a, b = np.lexsort((py, px)), np.lexsort((want, R[:, f]))
    ctx.check(np.array_equal(px[a], R[b, f]), "pair-values", lambda: ref.worst(px[a], R[b, f]))
    ctx.check(ref.close(py[a], want[b], 1e-9, max(out, 1e-300)), "shapley-values",
              lambda: "Shapley values of feature %d: %s" % (f, ref.worst(py[a], want[b])))
    ctx.ev("shapley_values", len(px))
    if d <= 3 and len(R) <= 100:
        total = sum(shapley(model, R, j) for j in range(d))
        y = model(R)
        assert ref.close(total, y - y.mean(), 1e-8, max(out, 1e-300))     # the oracle itself
        ctx.ev("efficiency")
    xs = gen.points(rng, L[0, f], L[1, f], X0[:, f], outside=False)
    y, s = fe.eval(f, xs, heterogeneity=True, centering=False)
    scale = max(np.abs(want).max(), out * 1e-3, 1e-300)
    inside = (xs >= px.min()) & (xs <= px.max())
    grow = np.where(inside, 1.0, 1.0 + 100 * (np.maximum(px.min() - xs, xs - px.max()) / max(np.ptp(px), 1e-300)) ** 3)

    def agrees(wy, ws):
        return (np.all(np.abs(y - wy) <= 1e-6 * scale * grow + 1e-9 * np.abs(wy)),
                np.all(np.abs(s - ws) <= 1e-6 * scale * grow + 1e-9 * np.abs(ws)))
    wy, ws = curves(px, py, xs)
    ok = agrees(wy, ws)
    for k in range(8):       # where knots are placed may hinge on rounding: any fit of rounding-equal data is as good
        if all(ok):
            break
        ctx.ev("perturbed_refits")
        noise = 1 + 1e-13 * rng.normal(size=len(py))
        o2 = agrees(*curves(px, py * noise, xs))
        ok = o2 if all(o2) else ok
    ctx.check(ok[0], "curve", lambda: "curve against the smoothing spline of its pairs: " + ref.worst(y, wy))
    ctx.check(ok[1], "std-curve", lambda: "heterogeneity against the spline of absolute residuals: " + ref.worst(s, ws))
    ctx.check(np.all(s >= 0), "negative", lambda: "negative heterogeneity %r" % s.min())
    ctx.ev("curves")
    ctx.ev("std_curves", np.any(ws > 0))
    ctx.ev("extrapolated", np.any(~inside))
    u = len(np.unique(px))
    ctx.ev("ties", u < len(px))
    ctx.ev("few_unique", u < 5)
    ctx.ev("dropped_by_limits", len(R) < len(X0))
    ctx.ev("hash_models", "hash" in model.name)
    ctx.case(nontrivial=np.ptp(want) > 0 and u > 1, n=n, d=d, feature=f, kinds=kk, model=model.name, limits=how,
             centering=cen, x0=float(X0[0, f]))


def scen_large(ctx, rng):
    scen(ctx, rng, True)


SCENARIOS = [("shap", scen, 11), ("large", scen_large, 1)]
