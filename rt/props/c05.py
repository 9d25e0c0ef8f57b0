"""C05: every bin layout covers the axis, increases, and respects the minimum population; refusals are justified."""
import numpy as np
from rt import gen, ref
from rt.harness import Skip

RULE = ("random column (13 kinds), local effects over 18 orders of magnitude (noise, piecewise constant, constant, zero), "
        "axis limits, bin counts 1..60, minimum population 0..N+2, discount, categorical threshold; directly on the "
        "binning classes and through ALE / RHALE; non-trivial: a layout with at least 2 bins, or a refusal")
CASES = {"quick": 6000, "thorough": 100000}
REQUIRED = ["far_from_zero", "layouts_checked", "refusals_checked", "categorical_layouts", "greedy", "dp", "fixed", "through_fit",
            "populations_checked", "constant_features", "single_bin_layouts", "tight_minimum"]
ASSUMPTIONS = ["a bin is a closed interval, so an instance on a common limit counts for both neighbours",
               "instances within rounding of a limit may count for either side"]


def effects(rng, x):
    k = str(rng.choice(["noise", "steps", "constant", "zero", "linear", "spiky"]))
    n = len(x)
    if k == "noise":
        e = rng.normal(size=n)
    elif k == "steps":
        cuts = np.sort(rng.choice(x, min(n, int(rng.integers(1, 5)))))
        e = np.searchsorted(cuts, x) * 1.0 + (rng.normal(size=n) * 0.01 if rng.random() < 0.5 else 0)
    elif k == "constant":
        e = np.full(n, float(rng.normal()))
    elif k == "zero":
        e = np.zeros(n)
    elif k == "linear":
        e = x - x.mean() + 0.0
    else:
        e = np.where(rng.random(n) < 0.05, 100.0, 0.0)
    return e * 10 ** rng.uniform(-6, 12), k


def make(ctx, rng, nmax=300):
    kind = str(rng.choice(gen.COLS + ["constant"])) if rng.random() < 0.97 else "constant"
    n = gen.pick_n(rng, 1, nmax, huge=0.004)
    x = gen.column(rng, n, kind)
    if rng.random() < 0.05:
        # narrow compared with the offset: some hundred to some million representable numbers wide
        kind, off = "far", 10 ** rng.uniform(3, 12) * rng.choice([-1, 1])
        x = off + np.spacing(abs(off)) * 10 ** rng.uniform(2.5, 6) * rng.random(n)
        ctx.ev("far_from_zero")
    d = int(rng.integers(1, 4))
    f = int(rng.integers(d))
    X = rng.normal(size=(n, d)) * 10
    X[:, f] = x
    lim, how = gen.limits(rng, X)
    L = gen.full_limits(X, lim)
    keep = gen.in_range(X, L, f)
    if keep.sum() == 0:
        raise Skip("no instance in range")
    X = X[keep]
    E = rng.normal(size=X.shape)
    E[:, f], ek = effects(rng, X[:, f])
    return X, E, f, L, how, kind, ek


def counts(x, limits, w):
    """Lower and upper bounds of the closed-interval populations (all instances are within the outer limits)."""
    inner = np.concatenate([[-np.inf], limits[1:-1], [np.inf]])
    lo = np.array([np.sum((x >= a + w) & (x <= b - w)) for a, b in zip(inner[:-1], inner[1:])])
    hi = np.array([np.sum((x >= a - w) & (x <= b + w)) for a, b in zip(limits[:-1], limits[1:])])
    return lo, hi


def cat_limits(u):
    d = np.diff(u)
    return np.concatenate([[u[0] - d[0] / 2], u[:-1] + d / 2, [u[-1] + d[-1] / 2]])


def judge(ctx, algo, lims, x, L0, L1, nb, mp, cat, name):
    """lims: the layout found, or False."""
    u = np.unique(x)
    ulp = 8 * np.spacing(max(abs(L0), abs(L1), np.abs(x).max()))
    w = ulp + 1e-12 * (L1 - L0)
    found = lims is not False and lims is not None
    ctx.ev(algo)
    if len(u) == 1:
        ctx.check(not found, name + "-constant", "a constant feature was binned: %r" % (lims,))
        ctx.ev("constant_features")
        return False
    if found:
        lims = np.asarray(lims, dtype=float)
        ctx.check(lims.ndim == 1 and len(lims) >= 2 and np.all(np.isfinite(lims)), name + "-layout", lambda: "limits %r" % (lims,))
        ctx.check(np.all(np.diff(lims) > 0), name + "-increasing", lambda: "limits %r" % (lims,))
        ctx.ev("layouts_checked")
        ctx.ev("single_bin_layouts", len(lims) == 2)
    else:
        ctx.ev("refusals_checked")
    if len(u) <= cat:
        want = cat_limits(u)
        if np.min(np.diff(u)) < 64 * np.spacing(np.abs(u).max()):
            raise Skip("values closer than rounding")
        cnt = np.array([np.sum(x == v) for v in u])
        if found:
            ctx.check(cnt.min() >= mp, name + "-cat-population", lambda: "%d < %d" % (cnt.min(), mp))
            ctx.check(ref.close(lims, want, 0.0, atol=w), name + "-cat-limits", lambda: ref.worst(lims, want))
            ctx.check(np.all(lims[:-1] < u) and np.all(u < lims[1:]), name + "-cat-inside", "a value is on a limit")
            ctx.ev("categorical_layouts")
        else:
            ctx.check(len(x) < mp or cnt.min() < mp, name + "-cat-refused", "each value has %d >= %d instances" % (cnt.min(), mp))
        return found
    if not found:
        if algo == "fixed":
            lo, _ = counts(x, np.linspace(L0, L1, nb + 1), w)
            ctx.check(lo.min() < mp, name + "-refused", "every equal bin holds at least %d" % mp)
        else:
            ctx.check(len(x) < mp, name + "-refused", "%d instances would fit one bin of at least %d" % (len(x), mp))
        return False
    ctx.check(abs(lims[0] - L0) <= w and abs(lims[-1] - L1) <= w, name + "-coverage",
              lambda: "limits %r do not span [%r, %r]" % (lims, L0, L1))
    ctx.check(len(lims) - 1 <= nb, name + "-too-many-bins", lambda: "%d bins, %d requested" % (len(lims) - 1, nb))
    _, hi = counts(x, lims, w)
    ctx.check(hi.min() >= mp, name + "-population", lambda: "a bin of %r holds %d < %d" % (lims, hi.min(), mp))
    ctx.ev("populations_checked", len(hi))
    ctx.ev("tight_minimum", hi.min() == mp)
    if algo == "fixed":
        want = np.linspace(L0, L1, nb + 1)
        ctx.check(ref.close(lims, want, 0.0, atol=w + (nb + 2) * ulp), name + "-equal-bins", lambda: ref.worst(lims, want) if len(lims) == nb + 1 else "%d bins, not %d" % (len(lims) - 1, nb))
    return True


def exact_minimum(rng, x, L0, L1, nb, mp):
    """Often ask for exactly as many instances as the emptiest of the equal bins holds."""
    if rng.random() < 0.3:
        limits = np.linspace(L0, L1, nb + 1)
        lo, hi = counts(x, limits, 8 * np.spacing(max(abs(L0), abs(L1))) + 1e-12 * (L1 - L0))
        return int(lo.min()) or mp
    return mp


def params(rng, n, small=False):
    nb = int(rng.integers(1, 16)) if small else int(rng.choice([1, 2, 3, 5, 10, 20, 60, 300], p=[.14, .14, .14, .14, .14, .14, .14, .02]))
    mp = int(rng.choice([0, 1, 2, 5, 10, max(1, n // 4), max(1, n // 2), n, n + 1]))
    cat = int(rng.choice([0, 1, 2, 5, 10, 15]))
    return nb, mp, cat, float(rng.choice([0.0, 0.3, 0.9]))


def scen_direct(ctx, rng):
    from effector import bin_splitting as bs
    X, E, f, L, how, kind, ek = make(ctx, rng)
    n = len(X)
    nontriv = False
    for algo in ("greedy", "dp", "fixed"):
        nb, mp, cat, disc = params(rng, n, algo == "dp")
        own = how == "none" and rng.random() < 0.5       # limits inferred by the class itself
        axis = None if own else L
        L0, L1 = (X[:, f].min(), X[:, f].max()) if own else (L[0, f], L[1, f])
        if algo == "greedy":
            b = bs.Greedy(data=X, data_effect=E, feature=f, axis_limits=axis)
            r = b.find(init_nof_bins=nb, discount=disc, min_points=mp, cat_limit=cat)
        elif algo == "dp":
            b = bs.DP(data=X, data_effect=E, feature=f, axis_limits=axis)
            r = b.find(max_nof_bins=nb, min_points=mp, discount=disc, cat_limit=cat)
        else:
            mp = exact_minimum(rng, X[:, f], L0, L1, nb, mp)
            b = bs.Fixed(data=X, data_effect=E if rng.random() < 0.5 else None, feature=f, axis_limits=axis)
            r = b.find(nof_bins=nb, min_points=mp, cat_limit=cat)
        same = (r is False and b.limits is False) or (r is not False and b.limits is not False and np.array_equal(r, b.limits))
        ctx.check(same, algo + "-returns", lambda: "find returned %r, limits are %r" % (r, b.limits))
        ok = judge(ctx, algo, r, X[:, f], L0, L1, nb, mp, cat, algo)
        nontriv |= (not ok) or len(r) > 2
    ctx.case(nontrivial=nontriv, n=n, kind=kind, effects=ek, limits=how, x0=float(X[0, f]))


def scen_fit(ctx, rng):
    import effector
    X, E, f, L, how, kind, ek = make(ctx, rng)
    n = len(X)
    if not L[0, f] < L[1, f]:
        raise Skip("constant axis")
    algo = str(rng.choice(["greedy", "dp", "fixed", "ale"]))
    nb, mp, cat, disc = params(rng, n, algo == "dp")
    default = rng.random() < 0.2 and algo != "ale"
    if algo == "greedy":
        binning = effector.Greedy(init_nof_bins=nb, min_points_per_bin=mp, discount=disc, cat_limit=cat)
    elif algo == "dp":
        binning = effector.DynamicProgramming(max_nof_bins=nb, min_points_per_bin=mp, discount=disc, cat_limit=cat)
    else:
        mp = exact_minimum(rng, X[:, f], L[0, f], L[1, f], nb, mp)
        binning = effector.Fixed(nof_bins=nb, min_points_per_bin=mp, cat_limit=cat)
    if default:
        binning = algo
        nb, mp, cat = {"greedy": 100, "dp": 20, "fixed": 20}[algo], 0, 15
    if default and algo == "dp" and n > 120:
        raise Skip("slow")
    model = gen.Hash(X.shape[1], 3, 1.0)
    lims = False
    try:
        if algo == "ale":
            fe = effector.ALE(X, model, axis_limits=L)
        else:
            fe = effector.RHALE(X, model, None, axis_limits=L, data_effect=E)
        fe.fit(f, binning_method=binning, centering=False)
        lims = fe.feature_effect["feature_%d" % f]["limits"]
    except AssertionError as e:
        if "Too few" in str(e):
            raise Skip("no bin with two instances")
        ctx.check("mpossible" in str(e), "fit-error", lambda: "unexpected refusal %r" % e)
    ok = judge(ctx, "fixed" if algo == "ale" else algo, lims, X[:, f], L[0, f], L[1, f], nb, mp, cat, "fit-" + algo)
    ctx.ev("through_fit")
    ctx.case(nontrivial=(not ok) or len(lims) > 2, n=n, kind=kind, effects=ek, limits=how, algo=algo, default=bool(default), x0=float(X[0, f]))


SCENARIOS = [("direct", scen_direct, 2), ("fit", scen_fit, 1)]
