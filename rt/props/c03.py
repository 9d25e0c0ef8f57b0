"""C03: ALE accumulates the local finite differences of every instance inside its own bin."""
import numpy as np
from rt import gen, ref, methods
from rt.harness import Skip, Violation

RULE = ("random design matrix, black box and axis limits, Fixed binning with 1..60 bins or categorical bins; "
        "non-trivial: at least 2 bins with instances")
CASES = {"quick": 5000, "thorough": 80000}
REQUIRED = ["bins_compared", "empty_bins", "categorical_fits", "uneven_bins", "query_rows_checked", "points_outside",
            "rows_out_of_range", "instances_on_limits"]
ASSUMPTIONS = ["at least one bin holds two instances (ALE refuses to fit otherwise)"]


def setup(ctx, rng, nmax=400, dmax=5, kinds=None, huge=0.01):
    d = methods.wide(rng, 1, dmax, most=110)
    n = gen.pick_n(rng, 3, nmax, huge=huge if nmax > 100 else 0)
    X, kinds = gen.dataset(rng, n, d, kinds)
    f = int(rng.integers(d))
    lim, how = gen.limits(rng, X)
    L = gen.full_limits(X, lim)
    keep = gen.in_range(X, L, f)
    if not L[0, f] < L[1, f] or keep.sum() < 2 or len(np.unique(X[keep, f])) < 2:
        raise Skip("degenerate")
    ctx.ev("rows_out_of_range", int((~keep).sum()))
    return X, kinds, f, lim, how, L, keep


def compare_bins(ctx, par, mean, var, cnt, esc, key, rtol=1e-9, std_tol=None):
    """std_tol: absolute rounding allowed in the standard deviation of a bin, when the local effects are exact"""
    ctx.check(np.array_equal(np.asarray(par["points_per_bin"]), cnt), key + "-points-per-bin",
              lambda: "%r, expected %r" % (list(par["points_per_bin"]), list(cnt)))
    ctx.check(int(np.sum(par["points_per_bin"])) == int(cnt.sum()), key + "-points-lost", "")
    m, v = ref.interp_gaps(mean), ref.interp_gaps(var)
    ctx.check(ref.close(par["bin_effect"], m, rtol, esc), key + "-bin-effect", lambda: ref.worst(par["bin_effect"], m))
    ctx.check(ref.close(par["bin_variance"], v, rtol, esc ** 2), key + "-bin-variance", lambda: ref.worst(par["bin_variance"], v))
    if std_tol is not None:
        full = ~np.isnan(var)
        got, want = np.sqrt(np.asarray(par["bin_variance"])[full]), np.sqrt(var[full])
        ctx.check(np.all(np.abs(got - want) <= 1e-9 * want + std_tol), key + "-bin-std", lambda: ref.worst(got, want))
        ctx.ev("nearly_constant_bins", int(np.sum(want <= 1e-6 * np.abs(mean[full]))))
    ctx.check(ref.close(par["dx"], np.diff(par["limits"]), 1e-12), key + "-bin-width", lambda: ref.worst(par["dx"], np.diff(par["limits"])))
    ctx.ev("bins_compared", len(cnt))
    ctx.ev("empty_bins", int((cnt == 0).sum()))
    return m, v


def compare_curve(ctx, fe, f, xs, limits, m, v, key, rtol=1e-9):
    y = fe.eval(f, xs, centering=False)
    y2, std = fe.eval(f, xs, heterogeneity=True, centering=False)
    wy, ws = ref.accumulate(xs, limits, m), ref.accumulate(xs, limits, np.sqrt(v))
    w = limits[-1] - limits[0]
    sy, ss = np.max(np.abs(m)) * w, np.sqrt(np.max(v)) * w
    ctx.check(ref.close(y, wy, rtol, sy), key + "-curve", lambda: ref.worst(y, wy))
    ctx.check(ref.close(y2, y, 1e-12, sy), key + "-curve-with-heterogeneity", lambda: ref.worst(y2, y))
    ctx.check(ref.close(std, ws, rtol, ss), key + "-heterogeneity-curve", lambda: ref.worst(std, ws))
    ctx.ev("points_outside", int(np.sum((xs < limits[0]) | (xs > limits[-1]))))
    ctx.ev("curve_points", len(xs))


def expected_fixed(x, L, f, nof_bins, cat_limit):
    u = np.unique(x)
    if len(u) <= cat_limit:
        d = np.diff(u)
        return np.concatenate([[u[0] - d[0] / 2], u[:-1] + d / 2, [u[-1] + d[-1] / 2]])
    return np.linspace(L[0, f], L[1, f], nof_bins + 1)


def scen_ale(ctx, rng):
    from effector import ALE, Fixed
    X, kinds, f, lim, how, L, keep = setup(ctx, rng)
    model = gen.model(rng, X, foi=f)
    probe = gen.Probe(model)
    ale = ALE(X, probe, axis_limits=lim)
    default = rng.random() < 0.2
    nb, cat = (20, 15) if default else (int(rng.integers(1, 60)) if rng.random() < 0.9 else int(rng.integers(60, 600)), int(rng.choice([0, 1])) if rng.random() < 0.08 else int(rng.integers(2, 30)))
    x = X[keep, f]
    want_limits = expected_fixed(x, L, f, nb, cat)
    probe.reset()
    binning = "fixed" if default else Fixed(nof_bins=nb, min_points_per_bin=0, cat_limit=cat)
    idx = ref.bin_of(x, want_limits)
    if np.max(np.bincount(idx)) < 2:
        raise Skip("no bin with two instances")
    ale.fit(f, binning_method=binning, centering=bool(rng.random() < 0.3))
    par = ale.feature_effect["feature_%d" % f]
    lims = np.asarray(par["limits"], dtype=float)
    ctx.check(ref.close(lims, want_limits, 1e-12, np.max(np.abs(want_limits))), "ale-limits", lambda: ref.worst(lims, want_limits))
    e = ref.ale_local(model, X[keep], f, lims)
    mean, var, cnt = ref.bin_stats(x, e, lims)
    esc = np.max(np.abs(e))
    fmax = np.max(np.abs(model(X)))
    dmin = np.min(np.diff(lims))
    compare_bins(ctx, par, mean, var, cnt, esc + 1e-6 * fmax / dmin, "ale", std_tol=1e-11 * (esc + fmax / dmin))
    xs = gen.points(rng, L[0, f], L[1, f], X[:, f])
    xs = np.concatenate([xs, rng.choice(lims, 3)])
    compare_curve(ctx, ale, f, xs, lims, np.asarray(par["bin_effect"]), np.asarray(par["bin_variance"]), "ale")
    # locality: the model only ever sees an instance moved to the two limits of its own bin
    ctx.check(not probe.bad, "ale-bad-query", lambda: probe.bad[0])
    allowed = {r.tobytes() for r in X + 0.0}
    for k in (0, 1):
        allowed |= {r.tobytes() for r in ref.set_col(X[keep], f, lims[idx2(x, lims) + k]) + 0.0}
    Q = probe.all_rows()
    bad = [i for i, r in enumerate(Q + 0.0) if r.tobytes() not in allowed]
    ctx.check(not bad, "ale-non-local-query", lambda: "queried %r" % Q[bad[0]])
    ctx.ev("query_rows_checked", len(Q))
    ctx.ev("categorical_fits", len(np.unique(x)) <= cat)
    ctx.ev("uneven_bins", np.ptp(np.diff(lims)) > 1e-6 * np.ptp(lims))
    ctx.ev("instances_on_limits", int(np.isin(x, lims).sum()))
    ctx.case(nontrivial=(cnt > 0).sum() > 1, n=len(X), d=X.shape[1], feature=f, kind=kinds[f], model=model.name,
             limits=how, bins=len(cnt), default=bool(default), x0=float(X[0, f]))


def idx2(x, lims):
    return ref.bin_of(x, lims)


def scen_exact_additive(ctx, rng):
    """End to end: on a model additive in the feature, ALE differences equal the model's own differences."""
    from effector import ALE, Fixed
    X, kinds, f, lim, how, L, keep = setup(ctx, rng)
    model = gen.additive(rng, X, smooth=bool(rng.random() < 0.5))
    nb = int(rng.integers(1, 15))
    x = X[keep, f]
    want = expected_fixed(x, L, f, nb, 10)
    cnt = np.bincount(ref.bin_of(x, want), minlength=len(want) - 1)
    if cnt.min() == 0 or cnt.max() < 2:
        raise Skip("empty bins are interpolated")
    ale = ALE(X, model, axis_limits=lim)
    ale.fit(f, binning_method=Fixed(nb, 0, 10))
    y = ale.eval(f, want)
    base = X[:1]
    g = np.array([model(ref.set_col(base, f, l))[0] for l in want])
    fmax = np.max(np.abs(model(X))) + np.max(np.abs(g))
    ctx.check(ref.close(y - y[0], g - g[0], 1e-9, fmax), "ale-additive", lambda: ref.worst(y - y[0], g - g[0]))
    ctx.ev("bins_compared", len(cnt))
    ctx.case(n=len(X), feature=f, kind=kinds[f], bins=len(cnt), limits=how, x0=float(X[0, f]))


SCENARIOS = [("ale", scen_ale, 5), ("additive-end-to-end", scen_exact_additive, 1)]
