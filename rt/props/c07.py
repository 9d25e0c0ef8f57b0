"""C07: centering only shifts a curve, by the documented constant, whatever was called before."""
import numpy as np
from rt import gen, ref, methods
from rt.harness import Skip

WARM = methods.warm
RULE = ("five methods, random data, axis limits, models (smooth ones for the zero-integral scenario), a random history of "
        "earlier fits / evals with other centerings, then centred against uncentred curves; non-trivial: a curve that varies")
CASES = {"quick": 1500, "thorough": 24000}
REQUIRED = ["shift_pairs", "heterogeneity_pairs", "zero_start", "zero_integral", "ice_shifts", "after_history",
            "pdp", "dpdp", "ale", "rhale", "shap", "limits_not_data"]
ASSUMPTIONS = ["zero_integral is checked to within the discretisation error of the number of centering points"]


def start(ctx, rng, smooth):
    name = methods.GLOBAL[int(rng.choice(5, p=[.25, .2, .25, .2, .1]))]
    kinds = ["uniform", "normal", "rounded", "cat_even", "skewed", "gap", "offset"] if smooth else None
    X, kk, f, model, lim, how, L = methods.problem(rng, name, kinds=kinds, smooth=smooth)
    if rng.random() < 0.4:
        model = gen.Scaled(model, 1.0, float(rng.choice([-1e3, 50.0, 1e4])))
    jac = model.jac if name in ("dpdp", "rhale") else None
    effect = model.jac(X) if name == "rhale" and rng.random() < 0.5 else None
    new = lambda: methods.make(name, X, model, lim, jac=jac, effect=effect)
    kw, fd = methods.fit_options(rng, name)
    fe = new()
    hist = int(rng.integers(0, 4))
    with methods.refusals_skip():
        fe.fit(f, **kw)
        for _ in range(hist):
            c = methods.CENTERINGS[int(rng.integers(4))]
            r = rng.random()
            g = int(rng.integers(X.shape[1]))
            if r < 0.2:
                fe.fit(f, **dict(kw, centering=c))
            elif r < 0.8 or not methods.valid_feature(X, L, g):
                fe.eval(f, gen.points(rng, L[0, f], L[1, f], t=3), heterogeneity=bool(rng.random() < 0.5), centering=c)
            else:
                fe.fit(g, **dict(kw, centering=c))
    ctx.ev("after_history", hist > 0)
    ctx.ev(name)
    ctx.ev("limits_not_data", how != "none")
    ctx.case(method=name, n=len(X), d=X.shape[1], feature=f, kind=kk[f], model=model.name, limits=how, fit=fd, history=hist, x0=float(X[0, f]))
    return name, X, f, model, L, kw, fe


def scale_of(name, fe, model, X, f, L, us):
    """The magnitude that rounding errors are relative to."""
    s = np.max(np.abs(us)) if np.size(us) else 0.0
    if name in ("ale", "rhale"):
        par = fe.feature_effect["feature_%d" % f]
        s = max(s, float(np.sum(np.abs(par["bin_effect"] * par["dx"]))))
    return s


def scen_shift(ctx, rng):
    name, X, f, model, L, kw, fe = start(ctx, rng, False)
    xs = gen.points(rng, L[0, f], L[1, f], X[:, f])
    if name == "shap":
        xs = np.clip(xs, X[:, f].min(), X[:, f].max())       # no extrapolation of the spline
    order = [methods.CENTERINGS[i] for i in rng.permutation(4)] + [False]
    out = {}
    ice = {}
    with methods.refusals_skip():
        for c in order:
            vec = {"use_vectorized": bool(rng.random() < 0.5)} if name in ("pdp", "dpdp") else {}
            y, h = fe.eval(f, xs, heterogeneity=True, centering=c, **vec)
            y2 = fe.eval(f, xs, centering=c, **vec)
            sc = scale_of(name, fe, model, X, f, L, y) + np.max(np.abs(y))
            ctx.check(ref.close(y, y2, 1e-10, sc), name + "-mean-with-heterogeneity", lambda: ref.worst(y, y2))
            if c in out:
                ctx.check(ref.close(out[c][0], y, 1e-10, sc), name + "-unstable", lambda: ref.worst(out[c][0], y))
            out[c] = (y, h)
            if vec:
                ice[c] = fe.eval(f, xs, centering=c, return_all=True, **vec)
                ctx.check(ref.close(ice[c].mean(axis=1), y, 1e-10, np.max(np.abs(ice[c])) + sc), name + "-ice-mean", lambda: ref.worst(ice[c].mean(axis=1), y))
                ctx.check(ref.close(ice[c].std(axis=1), h, 1e-9, np.max(np.abs(ice[c])) + sc), name + "-ice-std", lambda: ref.worst(ice[c].std(axis=1), h))
    u, hu = out[False]
    base = scale_of(name, fe, model, X, f, L, u) + 1e-300
    if ice:
        base = max(base, np.max(np.abs(ice[False])))
        # norm constants are taken inside the limits
        gx = np.linspace(L[0, f], L[1, f], 7)
        base = max(base, np.max(np.abs(ref.ice(model, X, f, gx))) if name == "pdp" else np.max(np.abs(ref.dice(model.jac, X, f, gx))))
    for c in (True, "zero_integral", "zero_start"):
        y, h = out[c]
        sc = max(base, np.max(np.abs(y)))
        diff = y - u
        ctx.check(ref.close(diff, np.full_like(diff, diff[0]), 1e-9, sc), name + "-not-a-shift", lambda: "centering %r moved the curve by %r" % (c, diff))
        ctx.ev("shift_pairs")
        if name in ("ale", "rhale", "shap"):
            ctx.check(ref.close(h, hu, 1e-12, np.max(np.abs(hu)) + 1e-300), name + "-heterogeneity-changed", lambda: ref.worst(h, hu))
            ctx.ev("heterogeneity_pairs")
        if ice:
            dI = ice[c] - ice[False]
            ctx.check(ref.close(dI, np.broadcast_to(dI[:1], dI.shape), 1e-9, sc), name + "-ice-not-a-shift", lambda: ref.worst(dI, np.broadcast_to(dI[:1], dI.shape)))
            ctx.ev("ice_shifts", dI.shape[1])
    ctx.check(ref.close(out[True][0], out["zero_integral"][0], 1e-10, base) and ref.close(out[True][1], out["zero_integral"][1], 1e-10, base),
              name + "-true-is-not-zero-integral", lambda: ref.worst(out[True][0], out["zero_integral"][0]))
    with methods.refusals_skip():
        x0 = np.array([L[0, f], L[0, f]])
        y0 = fe.eval(f, x0, centering="zero_start")
        ctx.check(ref.close(y0, np.zeros(2), 1e-9, base), name + "-zero-start", lambda: "%r at the lower limit" % y0)
        if ice:
            i0 = fe.eval(f, x0, centering="zero_start", return_all=True)
            ctx.check(ref.close(i0, np.zeros_like(i0), 1e-9, base), name + "-zero-start-ice", lambda: ref.worst(i0, np.zeros_like(i0)))
    ctx.ev("zero_start")
    ctx.case(nontrivial=np.ptp(u) > 0)


def scen_integral(ctx, rng):
    name, X, f, model, L, kw, fe = start(ctx, rng, True)
    g = np.linspace(L[0, f], L[1, f], 2001)
    m = 0.5 * (g[1:] + g[:-1])
    with methods.refusals_skip():
        n = 99
        if name in ("pdp", "dpdp", "shap"):
            n = int(rng.choice([100, 100, 20, 300]))
            fe.fit(f, centering=False if rng.random() < 0.5 else "zero_start", points_for_centering=n)
        c = True if rng.random() < 0.5 else "zero_integral"
        y = fe.eval(f, m, centering=c)
        tv = np.sum(np.abs(np.diff(y)))
        if not np.isfinite(tv):
            raise Skip("extrapolated spline")
        k = 1.5 if name in ("pdp", "dpdp") else 0.6      # mean over a grid with its ends / trapezoid / midpoints
        tol = k * tv / n + 1e-9 * (np.max(np.abs(y)) + scale_of(name, fe, model, X, f, L, fe.eval(f, m)))
        ctx.check(abs(y.mean()) <= tol, name + "-zero-integral", lambda: "mean %.6g over the axis, tolerance %.3g" % (y.mean(), tol))
        if name in ("pdp", "dpdp"):
            I = fe.eval(f, m, centering=c, return_all=True)
            tvi = np.sum(np.abs(np.diff(I, axis=0)), axis=0)
            bad = np.abs(I.mean(axis=0)) > 1.5 * tvi / n + 1e-9 * (np.max(np.abs(I)) + np.max(np.abs(fe.eval(f, m, return_all=True))))
            ctx.check(not bad.any(), name + "-zero-integral-ice", lambda: "ICE mean %.6g, variation %.3g" % (I.mean(axis=0)[bad][0], tvi[bad][0]))
            ctx.ev("ice_shifts", I.shape[1])
    ctx.ev("zero_integral")
    ctx.case(nontrivial=tv > 0)


SCENARIOS = [("shift", scen_shift, 2), ("zero-integral", scen_integral, 1)]
