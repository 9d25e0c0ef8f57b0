"""C11: every level takes the best admissible split; pruning keeps exactly the leading splits that pay."""
import numpy as np
from rt import gen, ref, methods
from rt.harness import Skip

WARM = methods.warm
BIG_M = 1e30
RULE = ("the five regional methods on random data and options (scales of the output from 1e-6 to 1e9); every candidate split of every "
        "level is evaluated again with the public global methods; non-trivial: at least one level with a feasible candidate")
CASES = {"quick": 1680, "thorough": 25200}
REQUIRED = ["candidates", "levels", "levels_feasible", "second_levels", "infeasible_regions", "recorded_heterogeneities", "pruned_none", "third_levels", "fourth_levels", "many_candidates", "many_instances", "paying_later", "deep", "exact_thresholds",
            "pruned_some", "small_enough", "categorical_refused", "stopped_by_size", "large_scale", "cat_chosen", "num_chosen",
            "centred", "supplied_effects", "hopeless", "rpdp", "rdpdp", "rale", "rrhale", "rshap"]
ASSUMPTIONS = ["heterogeneities of regions are taken from the public global methods, which C01-C09 check",
               "candidates with an instance within 1e-9 of the position are not required to be considered exactly"]


def heter_fn(name, model, jac, f, L, min_points, kw):
    """Heterogeneity of the method on a region, by its public global counterpart."""
    import effector as ef
    c = kw.get("centering", False)
    p = kw.get("points_for_centering", 100)

    def heter(x, e):
        if len(x) < min_points:
            return BIG_M
        lo, hi = x[:, f].min(), x[:, f].max()
        try:
            if name in ("rpdp", "rdpdp"):
                fe = ef.PDP(x, model, L, "all") if name == "rpdp" else ef.DerPDP(x, model, jac, L, "all")
                fe.fit(f, centering=c, points_for_centering=p)
                return float(np.mean(fe.eval(f, np.linspace(lo, hi, 10), heterogeneity=True, centering=c)[1]))
            if name == "rshap":
                if lo == hi:
                    return BIG_M
                fe = ef.ShapDP(x, model, None, "all")
                fe.fit(f, centering=c)
                return float(np.mean(fe.eval(f, np.linspace(lo, hi, 10), heterogeneity=True)[1]))
            b = kw.get("binning_method", ef.binning_methods.Fixed(20, 0) if name == "rale" else "greedy")
            b = {"greedy": ef.Greedy, "dp": ef.DynamicProgramming, "fixed": ef.Fixed}[b]() if isinstance(b, str) else b
            fe = ef.ALE(x, model, "all", None) if name == "rale" else ef.RHALE(x, model, jac, "all", None, e)
            fe.fit(f, binning_method=b)
            return float(fe.eval(f, np.array([hi]), heterogeneity=True)[1][0])
        except AssertionError as err:
            if not methods.refused(err):
                if not (name in ("rale", "rrhale") and lo == hi):
                    raise
            return BIG_M
    return heter


def parts(x, j, p, typ):
    m = x[:, j] == p if typ == "cat" else x[:, j] <= p
    return m, ~m


def scen(ctx, rng, deep=False):
    k = ctx.index % 21
    if deep:
        name = str(rng.choice(["rpdp", "rdpdp", "rrhale"]))
        fact = rng.random() < 0.3
        X, kk, f, model = methods.factorial_problem(rng) if fact else methods.deep_problem(rng)
    else:
        name = methods.REGIONAL[k % 4] if k else "rshap"
        many = name != "rshap" and rng.random() < 0.03
        X, kk, f, model = methods.regional_problem(rng, name, nmax=80, nmin=10) if not many else methods.regional_problem(rng, name, nmin=200, nmax=700, dmax=2)
        many = many and len(X[0]) < 4
        if name == "rshap" and rng.random() < 0.1:
            X, kk, f, model = methods.regional_problem(rng, name, nmin=101, nmax=180, dmin=2, dmax=2)
            many = True
            ctx.ev("large_shap")
    n, d = X.shape
    out = 1.0
    if rng.random() < 0.35:
        out = float(rng.choice([1e-6, 1e-3, 1e3, 1e6, 1e9]))
        model = gen.Scaled(model, out)
    jac = model.jac if name in ("rdpdp", "rrhale") else None
    cat = int(rng.choice([0, 3, 6, 10], p=[.07, .31, .31, .31]))
    types = None
    if rng.random() < 0.25:
        types = ["cat" if rng.random() < 0.4 and len(np.unique(X[:, j])) < 25 else "cont" for j in range(d)]
    kw = methods.regional_options(rng, name, d)
    kw["nof_candidate_splits_for_numerical"] = int(rng.integers(2, 7))
    kw["heter_small_enough"] = float(rng.choice([0.0, 0.0, 0.05, 0.5, 3.0])) * out
    kw["heter_pcg_drop_thres"] = float(rng.choice([0.0, 0.05, 0.1, 0.3, 0.6]))
    kw["split_categorical_features"] = bool(rng.random() < 0.75)
    if name == "rale" and rng.random() < 0.5:
        kw.pop("binning_method")
    if deep:
        kw.update(max_depth=int(rng.integers(2, 5)), min_points_per_subregion=int(rng.integers(2, 6)), heter_small_enough=0.0,
                  nof_candidate_splits_for_numerical=int(rng.integers(1, 4)), heter_pcg_drop_thres=float(rng.choice([0.0, 0.01, 0.05, 0.1, 0.2])))
        kw["max_depth"] = min(kw["max_depth"], d - 1)
    foc = [j for j in range(d) if j != f]
    if deep and fact:
        kw.update(methods.factorial_options(d))
        cat = 0
    elif not deep and many:
        kw.update(max_depth=1, nof_candidate_splits_for_numerical=int(rng.integers(20, 70)) if name != "rshap" else 2)
        ctx.ev("many_candidates")
    elif d > 2 and rng.random() < 0.3:
        foc = [int(j) for j in rng.permutation(foc)[:max(1, len(foc) - 1)]]
        kw["candidate_conditioning_features"] = foc
        kw["max_depth"] = min(kw["max_depth"], len(foc))
    lim = None
    if name in ("rpdp", "rdpdp") and rng.random() < 0.3:
        lim, _ = gen.limits(rng, X, "wide")
    L = gen.full_limits(X, lim)
    effect = None
    if name == "rrhale" and rng.random() < 0.4:
        effect = (model.jac(X) + rng.normal(size=X.shape) * float(rng.choice([0.0, 0.3, 2.0])) * (np.abs(model.jac(X)).max() + 1e-9)) * float(rng.choice([1.0, -2.0, 5.0]))
        ctx.ev("supplied_effects")
    with methods.silent():
        fe = methods.make(name, X, model, lim=lim, jac=jac, effect=effect, types=types, cat=cat)
        fe.fit(f, **kw)
    ctx.ev(name)
    ctx.ev("centred", kw.get("centering", False) is not False)
    ctx.ev("large_scale", out >= 1e6)
    T = types or methods.types_of(X, cat)
    mp = kw["min_points_per_subregion"]
    full, pruned = fe.tree_full["feature_%d" % f], fe.tree_pruned["feature_%d" % f]
    desc = dict(method=name, n=n, d=d, feature=f, kinds=kk, model=model.name, scale=out, types=types, cat=cat,
                opts={k: str(v)[:40] for k, v in kw.items()}, x0=float(X[0, f]))
    none = (T[f] == "cat" and not kw["split_categorical_features"]) or n < mp
    ctx.ev("categorical_refused", T[f] == "cat" and not kw["split_categorical_features"])
    if none:
        ctx.check(full is None or len(full.nodes) == 1, "split-anyway", lambda: "feature of type %s was split" % T[f])
        ctx.check(pruned is None or len(pruned.nodes) == 1, "split-anyway", lambda: "feature of type %s was split" % T[f])
        ctx.case(nontrivial=False, **desc)
        return
    ctx.check(full is not None, "not-split", "no tree for a feature that may be split")
    heter = heter_fn(name, model, jac, f, L, mp, kw)
    cands = []
    for j in foc:
        if T[j] == "cat":
            ps = np.unique(X[:, j])
        else:
            k = kw["nof_candidate_splits_for_numerical"]
            ps = X[:, j].min() + (np.arange(k) + 0.5) * ((X[:, j].max() - X[:, j].min()) / k)
        cands += [(j, float(p), T[j]) for p in ps]
    levels = {}
    for node in full.nodes:
        levels.setdefault(node.level, []).append(node)
    regions = [(X, None if full.nodes[0].data["data_effect"] is None else full.nodes[0].data["data_effect"])]
    if name == "rrhale":
        E = model.jac(X) if effect is None else effect
        ctx.check(np.allclose(full.nodes[0].data["data_effect"], E), "effects", "root derivatives are not those of the instances")
        regions = [(X, E)]
    before = [heter(*regions[0])]
    rec = full.nodes[0].heterogeneity

    def same_h(a, b):
        if a >= 0.5 * BIG_M or b >= 0.5 * BIG_M:
            return a >= 0.5 * BIG_M and b >= 0.5 * BIG_M
        return abs(a - b) <= 1e-8 * max(abs(a), abs(b)) + 1e-11 * float(np.abs(model(X)).max()) * (1 if name != "rdpdp" else 0) + 1e-300
    ctx.check(same_h(rec, before[0]), "initial-heterogeneity", lambda: "recorded %r, the method gives %r" % (rec, before[0]))
    ctx.ev("recorded_heterogeneities")
    weighted = [before[0]]
    feasible_seen = False
    lev = 0
    while True:
        lev += 1
        stop = lev > kw["max_depth"] or any(len(x) < mp for x, _ in regions)
        ctx.ev("stopped_by_size", lev <= kw["max_depth"] and stop)
        ctx.check((lev in levels) == (not stop), "depth", lambda: "level %d %s; smallest region has %d instances (minimum %d), depth %d asked for" % (
            lev, "exists" if lev in levels else "is missing", min(len(x) for x, _ in regions), mp, kw["max_depth"]))
        if stop:
            break
        nodes = levels[lev]
        cj, cp, ct = nodes[0].data["feature"], float(nodes[0].data["position"]), nodes[0].data["feature_type"]
        ctx.check(all(v.data["feature"] == cj and v.data["position"] == nodes[0].data["position"] for v in nodes), "one-split",
                  "nodes of one level are split differently")
        ctx.check(cj in foc, "candidate-feature", lambda: "split on feature %r, candidates %r" % (cj, foc))
        rng_j = max(np.ptp(X[:, cj]), abs(cp), 1e-300)
        ctx.check(any(j == cj and abs(p - cp) <= 1e-9 * rng_j and t == ct for j, p, t in cands), "candidate-position",
                  lambda: "split of feature %d (%s) at %r, candidates %r" % (cj, ct, cp, [p for j, p, t in cands if j == cj]))
        ctx.ev("cat_chosen" if ct == "cat" else "num_chosen")

        def result(j, p, t):
            hs, ns = [], []
            for (x, e) in regions:
                for m in parts(x, j, p, t):
                    hs.append(heter(x[m], None if e is None else e[m]))
                    ns.append(len(x[m]))
            w = (np.array(ns) + 1.0) / np.sum(np.array(ns) + 1.0)
            hb = np.repeat(before, 2)
            return float(np.sum(w * (hb - hs))), hs, ns, float(np.sum(w * hs))
        drop, hs, ns, wh = result(cj, cp, ct)
        for v, h, k in zip(nodes, hs, ns):
            ctx.check(v.nof_instances == k, "count", "instance count of a node")
            ctx.check(same_h(v.heterogeneity, h), "recorded-heterogeneity", lambda: "node %r: recorded %r, the method gives %r" % (v.name, v.heterogeneity, h))
            ctx.ev("recorded_heterogeneities")
            ctx.ev("infeasible_regions", h >= 0.5 * BIG_M)
        best, arg = -np.inf, None
        for j, p, t in cands:
            if t != "cat" and np.any(np.abs(X[:, j] - p) <= 1e-9 * max(np.ptp(X[:, j]), abs(p))):
                continue
            r = result(j, p, t)
            ctx.ev("candidates")
            if r[0] > best:
                best, arg, bh = r[0], (j, p, t), r[1]
        if arg is not None and best > -1e20:
            feasible_seen = True
            ctx.ev("levels_feasible")
            scale = max([abs(h) for h in hs + bh + before])
            ctx.check(drop >= best - 1e-8 * scale - 1e-300, "best-split", lambda: "level %d splits feature %d at %r with a weighted drop of %r; "
                      "feature %d at %r would give %r" % (lev, cj, cp, drop, arg[0], arg[1], best))
        ctx.ev("levels")
        ctx.ev("second_levels", lev > 1)
        ctx.ev("third_levels", lev > 2)
        ctx.ev("fourth_levels", lev > 3)
        ctx.ev("many_instances", n > 200)
        weighted.append(wh)
        before = hs
        regions = [(x[m], None if e is None else e[m]) for x, e in regions for m in parts(x, cj, cp, ct)]
    # pruning
    keep, sure = 0, True
    h0, hs_small = weighted[0], kw["heter_small_enough"]
    if h0 >= 0.5 * BIG_M or h0 < hs_small:
        sure = abs(h0 - hs_small) > 1e-9 * max(h0, hs_small) or h0 == hs_small
        ctx.ev("small_enough", h0 < hs_small)
    else:
        for a, b in zip(weighted[:-1], weighted[1:]):
            rel = (a - b) / a if a > 0 else 0.0
            if abs(rel - kw["heter_pcg_drop_thres"]) < 1e-7:
                sure = False
            if rel > kw["heter_pcg_drop_thres"]:
                keep += 1
            else:
                break
        sure = sure and h0 > 1e-11 * float(np.abs(model(X)).max())
    got = max(v.level for v in pruned.nodes)
    if sure:
        ctx.check(got == keep, "pruning", lambda: "%d levels kept, %d expected: weighted heterogeneities %r, threshold %r, small enough %r" % (
            got, keep, weighted, kw["heter_pcg_drop_thres"], hs_small))
        ctx.ev("pruned_none", keep == 0)
        ctx.ev("pruned_some", keep > 0)
        ctx.ev("paying_later", any(a > 0 and (a - b) / a > kw["heter_pcg_drop_thres"] for a, b in list(zip(weighted[:-1], weighted[1:]))[keep + 1:]) and h0 < 0.5 * BIG_M and h0 >= hs_small)
    ctx.check(got == 0 or min(v.nof_instances for v in pruned.nodes) >= mp, "region-size",
              lambda: "a kept region has %d instances, the minimum is %d" % (min(v.nof_instances for v in pruned.nodes), mp))
    ctx.case(nontrivial=feasible_seen, levels=len(weighted) - 1, kept=got, **desc)


def scen_deep(ctx, rng):
    """More levels, and splits that pay although an earlier one does not."""
    scen(ctx, rng, deep=True)
    ctx.ev("deep")


def scen_hopeless(ctx, rng):
    """No candidate leaves every region large enough: the search still ends, and keeps nothing."""
    import effector as ef
    sizes = []
    for _ in range(60):
        n = int(rng.integers(6, 30))
        X = np.stack([rng.normal(size=n), rng.integers(0, 2, n).astype(float), rng.normal(size=n)], axis=1)
        mp = int(rng.integers(n // 2 + 1, n + 1)) if rng.random() < 0.7 else n
        fe = ef.RegionalPDP(X, lambda Z: Z[:, 0] * Z[:, 1] + Z[:, 2] * Z[:, 0], "all", feature_types=["cont", "cat", "cont"])
        with methods.silent():
            fe.fit(0, max_depth=2, min_points_per_subregion=mp, nof_candidate_splits_for_numerical=int(rng.integers(3, 8)),
                   heter_small_enough=0.0)
        full, pruned = fe.tree_full["feature_0"], fe.tree_pruned["feature_0"]
        ok = [2 * mp <= n]
        ctx.check(len(pruned.nodes) == 1 or ok[0], "region-size", lambda: "n=%d split although regions need %d instances" % (n, mp))
        ctx.check(all(v.heterogeneity > 1e29 for v in full.nodes if v.nof_instances < mp), "recorded-heterogeneity", "a too small region is not infeasible")
        sizes.append((n, mp))
    ctx.ev("hopeless", len(sizes))
    ctx.case(nontrivial=True, sizes=sizes)


def scen_threshold(ctx, rng):
    """Drops and heterogeneities exactly on the thresholds, where every number involved is exact."""
    import effector as ef
    k = int(rng.integers(1, 5))
    a, b, c = [int(v) for v in rng.permutation(np.arange(1, 9))[:3]]
    g = np.repeat([0.0, 1.0], 4 * k)                       # the gate
    s = np.tile([0.0, 1.0], 4 * k)                         # independent of the gate
    X = np.stack([np.tile([0.0, 0.0, 9.0, 9.0], 2 * k), g, s], axis=1)
    perm = rng.permutation(len(X))
    X = X[perm]
    pays = rng.random() < 0.5
    # in the first model the gate explains everything, in the second neither feature explains the slope of the other
    slope = (lambda Z: 2.0 * a * Z[:, 1]) if pays else (lambda Z: 2.0 * a * Z[:, 2])
    name = str(rng.choice(["rpdp", "rdpdp", "rrhale"]))
    model = lambda Z: slope(Z) * Z[:, 0]
    jac = lambda Z: np.stack([slope(Z), np.zeros(len(Z)), np.zeros(len(Z))], axis=1)
    thr = 1.0 if pays else 0.0
    opts = dict(candidate_conditioning_features=[1], max_depth=1, heter_small_enough=0.0, min_points_per_subregion=2)
    types = ["cont", str(rng.choice(["cat", "cont"])), "cat"]
    with methods.silent():
        fe = {"rpdp": lambda: ef.RegionalPDP(X, model, "all", feature_types=types), "rdpdp": lambda: ef.RegionalDerPDP(X, model, jac, "all", feature_types=types),
              "rrhale": lambda: ef.RegionalRHALE(X, model, jac, nof_instances="all", feature_types=types)}[name]()
        if name == "rrhale":
            opts["binning_method"] = ef.Fixed(1, 0, 1)
        fe.fit(0, heter_pcg_drop_thres=thr, **opts)
    full = [v.heterogeneity for v in fe.tree_full["feature_0"].nodes]
    ctx.check(len(full) == 3, "depth", lambda: "%d nodes, 3 expected" % len(full))
    exact = (full[1] == 0 and full[2] == 0 and full[0] > 0) if pays else (full[0] == full[1] == full[2] > 0)
    if not exact:
        raise Skip("rounded heterogeneities %r" % (full,))
    size = lambda: len(fe.tree_pruned["feature_0"].nodes)
    ctx.check(size() == 1, "pruning", lambda: "%s: a drop of exactly the threshold %r is kept (heterogeneities %r)" % (name, thr, full))
    for t, want in ((np.nextafter(thr, -1), 3), (np.nextafter(thr, 2), 1)):
        with methods.silent():
            fe.fit(0, heter_pcg_drop_thres=float(t), **opts)
        ctx.check(size() == want, "pruning", lambda: "%s: heterogeneities %r, threshold %r, %d nodes kept" % (name, full, t, size()))
    if pays:
        for small, want in ((full[0], 3), (np.nextafter(full[0], 1e9), 1)):
            opts["heter_small_enough"] = float(small)
            with methods.silent():
                fe.fit(0, heter_pcg_drop_thres=0.1, **opts)
            ctx.check(size() == want, "pruning", lambda: "%s: heterogeneity %r, small enough is %r, %d nodes kept" % (name, full[0], small, size()))
    ctx.ev("exact_thresholds")
    ctx.case(method=name, n=len(X), slope=a, pays=pays)


SCENARIOS = [("threshold", scen_threshold, 1), ("search", scen, 18), ("deep", scen_deep, 4), ("hopeless", scen_hopeless, 1)]
