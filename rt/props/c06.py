"""C06: the dynamic program finds the cheapest binning of its grid; the greedy one replays the merge rule."""
import numpy as np
from rt import gen, ref
from rt.harness import Skip
from rt.props.c05 import effects

RULE = ("random or exactly-on-the-grid data, local effects (noise, steps, constant, spiky) of any magnitude, 2..18, sometimes up to 44 (DP) or "
        "2..100, sometimes up to 1000 (greedy) cells, discount 0..1, minimum population 0..N/2; non-trivial: a result of at least 2 bins")
CASES = {"quick": 4000, "thorough": 60000}
REQUIRED = ["dp_optima_compared", "greedy_replays", "on_grid_cases", "infeasible_cells", "minimum_binding", "multi_bin",
            "last_bin_merged", "through_fit", "named_methods", "extreme_scales",
            "fine_dp_grids", "fine_greedy_grids"]
ASSUMPTIONS = ["greedy decisions between costs equal up to rounding are skipped (counted as out of domain)",
               "instances within rounding of a grid limit are skipped unless the grid is exactly representable"]


def make(ctx, rng, nmax):
    exact = rng.random() < 0.4
    n = gen.pick_n(rng, 4, nmax, huge=0.004)
    d = int(rng.integers(1, 4))
    f = int(rng.integers(d))
    X = rng.normal(size=(n, d))
    if exact:      # a dyadic grid with many instances on its limits
        s = 2.0 ** int(rng.integers(-8, 9))
        off = float(rng.integers(-3, 4)) * s
        X[:, f] = rng.integers(0, 65, n) / 64.0 * s + off
        L0, L1 = off, off + s
        nb = int(2 ** rng.integers(1, 5))
        ctx.ev("on_grid_cases")
    else:
        X[:, f] = gen.column(rng, n, str(rng.choice([k for k in gen.COLS if k not in ("binary",)])))
        w = np.ptp(X[:, f])
        L0, L1 = X[:, f].min() - w * rng.uniform(0.001, 0.2), X[:, f].max() + w * rng.uniform(0.001, 0.2)
        nb = None
    x = X[:, f]
    if len(np.unique(x)) < 3:
        raise Skip("too few values")
    E = rng.normal(size=X.shape)
    if rng.random() < 0.5:      # exactly representable effects: costs of constant stretches are exactly 0
        cuts = np.sort(rng.choice(x, int(rng.integers(1, 5))))
        E[:, f] = np.searchsorted(cuts, x) * 2.0 ** int(rng.integers(-10, 30))
        if rng.random() < 0.4:
            E[:, f] += rng.integers(0, 2, n) * 2.0 ** -3
    else:
        E[:, f], _ = effects(rng, x)
    E[:, f] = np.clip(E[:, f], -1e10, 1e10)
    if rng.random() < 0.25:
        E[:, f] *= 2.0 ** int(rng.integers(-180, 181))
        ctx.ev("extreme_scales")
    disc = float(rng.choice([0.0, 0.3, 0.3, 0.8, 1.0]))
    mp = int(rng.choice([0, 0, 2, 5, 10, max(1, n // 5), max(1, n // 2)]))
    lim = np.stack([X.min(axis=0), X.max(axis=0)])
    lim[:, f] = L0, L1
    return X, E, f, lim, nb, disc, mp, exact


def find(ctx, rng, algo, X, E, f, lim, cells, mp, disc):
    """The layout, from the binning class or through RHALE with a binning object or its name."""
    import effector
    from effector import bin_splitting as bs
    named = {"dp": (20, 0, 0.3), "greedy": (100, 0, 0.3)}[algo] == (cells, mp, disc)
    if not named and (rng.random() < 0.5 or len(X) < mp):
        if algo == "dp":
            return bs.DP(data=X, data_effect=E, feature=f, axis_limits=lim).find(
                max_nof_bins=cells, min_points=mp, discount=disc, cat_limit=1)
        return bs.Greedy(data=X, data_effect=E, feature=f, axis_limits=lim).find(
            init_nof_bins=cells, discount=disc, min_points=mp, cat_limit=1)
    if named:
        if len(np.unique(X[:, f])) <= 15:
            raise Skip("categorical")
        binning = algo
        ctx.ev("named_methods")
    elif algo == "dp":
        binning = effector.DynamicProgramming(max_nof_bins=cells, min_points_per_bin=mp, discount=disc, cat_limit=1)
    else:
        binning = effector.Greedy(init_nof_bins=cells, min_points_per_bin=mp, discount=disc, cat_limit=1)
    fe = effector.RHALE(X, gen.Hash(X.shape[1]), None, axis_limits=lim, data_effect=E)
    try:
        fe.fit(f, binning_method=binning, centering=False)
    except AssertionError as err:
        if "Too few" in str(err):
            raise Skip("no bin with two instances")
        raise
    ctx.ev("through_fit")
    return fe.feature_effect["feature_%d" % f]["limits"]


def cost(x, e, a, b, disc, mp, N):
    s = e[(x >= a) & (x <= b)]
    if len(s) == 0 or len(s) < mp:
        return np.inf
    return np.var(s) * (b - a) * (1 - disc * len(s) / N)


def scen_dp(ctx, rng):
    X, E, f, lim, K, disc, mp, exact = make(ctx, rng, 200)
    K = K or int(rng.integers(2, 19 if rng.random() < 0.3 else 10))
    if not exact and rng.random() < 0.04:
        K, mp, disc = 20, 0, 0.3
    elif rng.random() < 0.02:
        K = 32 if exact else int(rng.integers(21, 45))
        ctx.ev("fine_dp_grids")
    x, e, N = X[:, f], E[:, f], len(X)
    L0, L1 = lim[0, f], lim[1, f]
    grid = L0 + np.arange(K + 1) * ((L1 - L0) / K)
    w = 1e-12 * (L1 - L0) + 8 * np.spacing(np.abs(grid).max())
    if not exact and np.min(np.abs(x[:, None] - grid[None, :])) < 4 * w:
        raise Skip("instance within rounding of the grid")
    if exact and mp <= N < 2 * mp:
        raise Skip("shared instances")
    C = np.full((K + 1, K + 1), np.inf)
    for i in range(K):
        for j in range(i + 1, K + 1):
            C[i, j] = cost(x, e, grid[i], grid[j], disc, mp, N)
    best = np.full(K + 1, np.inf)
    best[0] = 0.0
    for j in range(1, K + 1):
        best[j] = np.min(best[:j] + C[:j, j])
    r = find(ctx, rng, "dp", X, E, f, lim, K, mp, disc)
    if N < mp:
        ctx.check(r is False, "dp-too-few", "a layout although there are too few instances")
        return
    ctx.check(r is not False, "dp-none", "no layout")
    idx = np.array([int(np.argmin(np.abs(grid - v))) for v in r])
    ctx.check(np.max(np.abs(grid[idx] - r)) <= 4 * w and idx[0] == 0 and idx[-1] == K and np.all(np.diff(idx) > 0),
              "dp-off-grid", lambda: "limits %r are not on the grid %r" % (r, grid))
    got = float(sum(C[i, j] for i, j in zip(idx[:-1], idx[1:])))
    tol = 1e-9 * (np.max(e * e) - np.min(e * e) + np.max(np.abs(e)) ** 2) * (L1 - L0)
    tol = min(tol, 1e-9 * np.var(e) * (L1 - L0) + 1e-13 * np.max(np.abs(e)) ** 2 * (L1 - L0))
    ctx.check(got <= best[K] + tol, "dp-not-optimal",
              lambda: "cost %.12g of limits %r, the cheapest binning costs %.12g" % (got, r, best[K]))
    ctx.ev("dp_optima_compared")
    ctx.ev("infeasible_cells", int(np.isinf(C[np.arange(K), np.arange(1, K + 1)]).sum()))
    ctx.ev("multi_bin", len(r) > 2)
    ctx.ev("minimum_binding", mp > 0 and len(r) > 2)
    ctx.case(nontrivial=len(r) > 2, algo="dp", n=N, K=K, disc=disc, mp=mp, exact=bool(exact), bins=len(r) - 1, x0=float(x[0]))


def scen_greedy(ctx, rng):
    X, E, f, lim, nb, disc, mp, exact = make(ctx, rng, 300)
    nb = nb or int(rng.choice([2, 3, 7, 20, 50, 100, 150, 300, 1000], p=[.16, .16, .16, .16, .16, .16, .02, .01, .01]))
    if not exact and rng.random() < 0.1:
        nb, mp, disc = 100, 0, 0.3
    x, e, N = X[:, f], E[:, f], len(X)
    L0, L1 = lim[0, f], lim[1, f]
    grid = np.linspace(L0, L1, nb + 1)
    w = 1e-12 * (L1 - L0) + 8 * np.spacing(np.abs(grid).max())
    if not exact and np.min(np.abs(x[:, None] - grid[None, 1:-1])) < w:
        raise Skip("instance within rounding of the grid")
    if N < 2 * mp:
        raise Skip("at most one bin")
    es = np.max(np.abs(e)) ** 2 * (L1 - L0)
    want = [0]
    for i in range(nb - 1):
        c1, c2 = (cost(x, e, grid[want[-1]], grid[i + k], disc, mp, N) for k in (1, 2))
        if np.isinf(c1):
            continue          # too few instances (and then extending never makes it worse)
        for c in (c1, c2):
            if 0 < c < 1e-22 * es:
                raise Skip("cost is rounding noise")
        if abs(c1 - c2) <= 1e-9 * max(c1, c2) and c1 != c2:
            raise Skip("near tie")
        if c1 == c2 and c1 != 0:
            raise Skip("tie")
        if c2 > c1:
            want.append(i + 1)
    want.append(nb)
    last = np.sum((x >= grid[want[-2]]) & (x <= grid[want[-1]]))
    if last < mp:
        want = want[:-2] + want[-1:]
        ctx.ev("last_bin_merged")
    r = find(ctx, rng, "greedy", X, E, f, lim, nb, mp, disc)
    ctx.check(r is not False, "greedy-none", "no layout")
    wl = grid[want]
    ctx.check(len(r) == len(wl) and np.max(np.abs(np.asarray(r) - wl)) <= 4 * w, "greedy-rule",
              lambda: "limits %r, the merge rule gives %r" % (np.asarray(r), wl))
    ctx.ev("greedy_replays")
    ctx.ev("fine_greedy_grids", nb > 100 and len(r) > 2)
    ctx.ev("multi_bin", len(r) > 2)
    ctx.ev("minimum_binding", mp > 0 and len(r) > 2)
    ctx.case(nontrivial=len(r) > 2, algo="greedy", n=N, cells=nb, disc=disc, mp=mp, exact=bool(exact), bins=len(r) - 1, x0=float(x[0]))


SCENARIOS = [("dp", scen_dp, 1), ("greedy", scen_greedy, 1)]
