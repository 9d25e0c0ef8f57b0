"""C04: RHALE accumulates the per-bin mean of the derivatives; its heterogeneity is their per-bin std."""
import numpy as np
from rt import gen, ref
from rt.harness import Skip
from rt.props.c03 import setup, compare_bins, compare_curve

RULE = ("as C03, derivatives from a Jacobian function, a given matrix or finite differences, with fixed, greedy and "
        "dynamic-programming bins; non-trivial: at least 2 bins with instances")
CASES = {"quick": 5000, "thorough": 80000}
REQUIRED = ["bins_compared", "empty_bins", "greedy_fits", "dp_fits", "fixed_fits", "effects_given", "jacobian_used",
            "numeric_used", "rows_out_of_range", "points_outside", "nearly_equal_effects",
            "nearly_constant_bins", "large_data"]
ASSUMPTIONS = ["at least one bin holds two instances; numerical Jacobians only of smooth models"]


def pick_binning(rng, n):
    from effector import Fixed, Greedy, DynamicProgramming
    k = int(rng.integers(6))
    cat = int(rng.integers(2, 20))
    disc = float(rng.choice([0.0, 0.3, 0.7]))
    mp = int(rng.choice([0, 0, 2, 5, 10]))
    if k == 0:
        return "fixed", "fixed"
    if k == 1:
        return "greedy", "greedy"
    if k == 2:
        return "dp", "dp"
    if k == 3:
        return "fixed", Fixed(int(rng.integers(1, 40)) if rng.random() < 0.9 else int(rng.integers(200, 600)), 0, cat)
    if k == 4:
        return "greedy", Greedy(int(rng.integers(2, 60)), mp, disc, cat)
    return "dp", DynamicProgramming(int(rng.integers(1, 14)), mp, disc, cat)


def scen_rhale(ctx, rng):
    from effector import RHALE
    X, kinds, f, lim, how, L, keep = setup(ctx, rng, nmax=250, huge=0.03)
    source = str(rng.choice(["jac", "effect", "numeric"]))
    if source == "numeric":
        if kinds[f] not in ("normal", "uniform", "rounded", "cat_even", "cat_uneven", "int_wide") or X[:, f].std() < 0.05:
            raise Skip("numeric Jacobian needs moderate scales")
        model = gen.model(rng, X, kinds=("linear", "additive", "interacting"), foi=f)
    else:
        model = gen.model(rng, X, foi=f)
    J = model.jac(X)
    pm, pj = gen.Probe(model), gen.Probe(model, jac=True)
    bname, binning = pick_binning(rng, len(X))
    if source == "jac":
        fe = RHALE(X, pm, pj, axis_limits=lim)
    elif source == "effect":
        J = J + rng.normal(size=J.shape) if rng.random() < 0.5 else J
        if rng.random() < 0.25:
            # derivatives that are almost the same everywhere
            J = J + max(np.ptp(J[:, f]), 1e-3) * 10 ** rng.uniform(3, 10)
            ctx.ev("nearly_equal_effects")
        fe = RHALE(X, pm, None if rng.random() < 0.5 else pj, axis_limits=lim, data_effect=J)
    else:
        fe = RHALE(X, pm, None, axis_limits=lim)
    x = X[keep, f]
    pm.reset()
    try:
        fe.fit(f, binning_method=binning, centering=False)
    except AssertionError as e:
        if "mpossible" in str(e) or "Too few" in str(e):
            raise Skip("no binning: " + str(e)[:60])
        raise
    par = fe.feature_effect["feature_%d" % f]
    lims = np.asarray(par["limits"], dtype=float)
    e = J[keep, f]
    mean, var, cnt = ref.bin_stats(x, e, lims)
    ctx.check(cnt.sum() == keep.sum() and x.min() >= lims[0] - 1e-9 * np.ptp(lims) and x.max() <= lims[-1] + 1e-9 * np.ptp(lims),
              "rhale-bins-cover", "the bins do not cover the in-range instances")
    esc = np.max(np.abs(e))
    rtol, std_tol = 1e-9, 1e-12 * esc
    if source == "numeric":
        # forward differences with step 1e-8
        fmax = np.max(np.abs(model(X)))
        std_tol = None
        rtol, esc = 1e-5, esc * (1 + np.max(np.abs(X[:, f]))) + fmax * 1e-1
    compare_bins(ctx, par, mean, var, cnt, esc, "rhale", rtol, std_tol)
    xs = np.concatenate([gen.points(rng, L[0, f], L[1, f], X[:, f]), rng.choice(lims, 2)])
    compare_curve(ctx, fe, f, xs, lims, np.asarray(par["bin_effect"]), np.asarray(par["bin_variance"]), "rhale")
    if source == "jac":
        ctx.ev("jacobian_used")
        Q = pj.all_rows()
        have = {r.tobytes() for r in X + 0.0}
        ctx.check(all(r.tobytes() in have for r in Q + 0.0), "rhale-jacobian-off-data", "the Jacobian was asked for a row that is no instance")
        ctx.ev("query_rows_checked", len(Q))
        ctx.check(not pj.bad, "rhale-bad-query", lambda: pj.bad[0])
    elif source == "effect":
        ctx.ev("effects_given")
        ctx.check(pj.calls == 0, "rhale-ignores-effects", "the Jacobian was evaluated although the effects were given")
    else:
        ctx.ev("numeric_used")
    ctx.ev(bname + "_fits")
    ctx.case(nontrivial=(cnt > 0).sum() > 1, n=len(X), d=X.shape[1], feature=f, kind=kinds[f], model=model.name,
             limits=how, source=source, binning=bname, bins=len(cnt), x0=float(X[0, f]))


def scen_jacobian(ctx, rng):
    """The numerical Jacobian of smooth models on data of moderate scale."""
    from effector import utils
    d = int(rng.integers(1, 6))
    X, kinds = gen.dataset(rng, gen.pick_n(rng, 2, 100), d, [str(rng.choice(["normal", "uniform", "int_wide"])) for _ in range(d)])
    if X.std(axis=0).min() < 0.05:
        raise Skip("degenerate")
    if rng.random() < 0.3:
        X = X.astype(np.float32).astype(float)
    model = gen.model(rng, X, kinds=("linear", "additive", "interacting"))
    Z = X
    if rng.random() < 0.3:
        Z = X.astype(np.float32)
        X = Z.astype(float)
    elif all(k == "int_wide" for k in kinds):
        Z = X.astype(int)
    J = utils.compute_jacobian_numerically(model, Z)
    want = model.jac(X)
    fmax = np.max(np.abs(model(X)))
    sc = np.max(np.abs(want)) * (1 + np.max(np.abs(X))) + 0.1 * fmax
    ctx.check(np.shape(J) == want.shape and ref.close(J, want, 1e-5, sc), "numeric-jacobian", lambda: ref.worst(J, want))
    ctx.ev("numeric_used")
    ctx.case(n=len(X), d=d, dtype=str(Z.dtype), x0=float(X[0, 0]))


def scen_large(ctx, rng):
    """Thousands of instances, their number next to a round one."""
    from effector import RHALE, Fixed
    step = int(rng.choice([512, 1000, 1024, 2048, 4096, 5000, 8192, 10000]))
    n = step * int(rng.integers(-(-1000 // step), 20480 // step + 1)) + int(rng.choice([-1, 0, 1, 1]))
    d = int(rng.integers(1, 4))
    X, kinds = gen.dataset(rng, n, d)
    f = int(rng.integers(d))
    if len(np.unique(X[:, f])) < 2:
        raise Skip("degenerate")
    model = gen.model(rng, X, foi=f)
    fe = RHALE(X, model, model.jac)
    fe.fit(f, binning_method=Fixed(int(rng.integers(1, 400)), 0, int(rng.integers(2, 10))), centering=False)
    par = fe.feature_effect["feature_%d" % f]
    lims = np.asarray(par["limits"], dtype=float)
    J = model.jac(X)
    mean, var, cnt = ref.bin_stats(X[:, f], J[:, f], lims)
    esc = np.max(np.abs(J[:, f]))
    compare_bins(ctx, par, mean, var, cnt, esc, "rhale", 1e-9, 1e-12 * esc)
    xs = gen.points(rng, lims[0], lims[-1], X[:, f])
    compare_curve(ctx, fe, f, xs, lims, np.asarray(par["bin_effect"]), np.asarray(par["bin_variance"]), "rhale")
    ctx.ev("large_data")
    ctx.case(nontrivial=(cnt > 0).sum() > 1, n=n, d=d, feature=f, kind=kinds[f], model=model.name, bins=len(cnt), x0=float(X[0, f]))


SCENARIOS = [("rhale", scen_rhale, 24), ("numeric-jacobian", scen_jacobian, 4), ("large", scen_large, 1)]
