"""C12: a regional effect is the global effect of the region's own instances."""
import numpy as np
from rt import gen, ref, methods, figs
from rt.harness import Skip

WARM = methods.warm
RULE = ("the five regional methods on random data and fit options, every node of the pruned tree (several points and centerings) "
        "against a global object built on the rows that satisfy the node's conditions; non-trivial: a node below the root")
CASES = {"quick": 1200, "thorough": 20000}
REQUIRED = ["second_features", "deeper_trees", "nodes_compared", "large_regions", "large_shap_regions", "regions_compared", "deep_regions", "root_compared", "heterogeneity_compared", "centred", "refused_both",
            "given_effects", "other_binning", "subsampled", "rpdp", "rdpdp", "rale", "rrhale", "rshap", "limits_not_data"]
ASSUMPTIONS = ["the global methods themselves are checked by C01-C09"]


def counterpart(name, kw, X, E, model, jac, f):
    """A global object on these rows, fitted as the regional one was asked to."""
    import effector as ef
    if name == "rpdp":
        return ef.PDP(X, model, nof_instances="all"), {}
    if name == "rdpdp":
        return ef.DerPDP(X, model, jac, nof_instances="all"), {}
    if name == "rshap":
        return ef.ShapDP(X, model, nof_instances="all"), {}
    b = kw.get("binning_method", ef.binning_methods.Fixed(20, 0) if name == "rale" else "greedy")
    b = {"greedy": ef.Greedy, "dp": ef.DynamicProgramming, "fixed": ef.Fixed}[b]() if isinstance(b, str) else b
    if name == "rale":
        return ef.ALE(X, model, nof_instances="all"), {"binning_method": b}
    return ef.RHALE(X, model, jac, nof_instances="all", data_effect=E), {"binning_method": b}


def outcome(fn):
    try:
        return fn()
    except AssertionError as e:
        return e


def scen(ctx, rng):
    name = methods.REGIONAL[int(rng.choice(5, p=[.24, .2, .24, .26, .06]))]
    fact = name in ("rpdp", "rdpdp") and rng.random() < 0.04
    X, kk, f, model = methods.factorial_problem(rng) if fact else methods.regional_problem(rng, name, nmin=12)
    n, d = X.shape
    given = name == "rrhale" and rng.random() < 0.5
    jac = model.jac if name in ("rdpdp", "rrhale") and (rng.random() < 0.8 or not getattr(model, "smooth", False)) else None
    effect = model.jac(X) + rng.normal(size=X.shape) if given else None
    kw = methods.regional_options(rng, name, d, depth=int(rng.integers(1, 4)) if n < 50 else None)
    kw["heter_small_enough"] = 0.0
    kw["heter_pcg_drop_thres"] = float(rng.choice([0.0, 0.05]))
    kw["split_categorical_features"] = True
    kw["nof_candidate_splits_for_numerical"] = int(rng.integers(2, 6))
    if fact:
        kw.update(methods.factorial_options(d))
        ctx.ev("deeper_trees")
    lim, how = (None, "none") if rng.random() < 0.75 or name in ("rpdp", "rdpdp") else gen.limits(rng, X)
    if name in ("rpdp", "rdpdp") and rng.random() < 0.25:
        lim, how = gen.limits(rng, X, "wide")
    nof = int(rng.integers(n // 2 + 1, n)) if rng.random() < 0.12 and n > 4 else "all"
    with methods.silent():
        fe = methods.make(name, X, model, lim, jac=jac, effect=effect, nof=nof)
        fe.fit(f, **kw)
    if fe.tree_pruned["feature_%d" % f] is None:
        raise Skip("not split at all")
    E = effect if given else (np.asarray(model.jac(X)) if name == "rrhale" and jac is not None else None)
    if nof != "all":
        Z = fe.tree_pruned["feature_%d" % f].nodes[0].data["data"]
        idx = [int(np.flatnonzero(np.all(X == r, axis=1))[0]) for r in Z]
        if E is not None and len(np.unique(X, axis=0)) < n:
            raise Skip("equal rows")
        X, E = X[idx], None if E is None else E[idx]
        ctx.ev("subsampled")
    regions = compare(ctx, rng, name, fe, X, E, model, jac, f, kw)
    others = [g for g in range(d) if g != f and X[:, g].min() < X[:, g].max()]
    more = 0
    if rng.random() < 0.35 and others and name != "rshap":
        # other features of the same object, the first one again, and the first one after another fit
        more = int(rng.integers(1, 4))
        g = int(rng.choice(others))
        kg = {k: v for k, v in kw.items() if k != "candidate_conditioning_features"}
        kg["max_depth"] = min(kg.get("max_depth", 1), d - 1)
        if lim is None or lim[0, g] < lim[1, g]:
            with methods.silent():
                fe.fit(g, **kg)
            if fe.tree_pruned["feature_%d" % g] is not None:
                regions += compare(ctx, rng, name, fe, X, E, model, jac, g, kg, 5)
                ctx.ev("second_features")
        if more > 1:
            regions += compare(ctx, rng, name, fe, X, E, model, jac, f, kw, 3)
        if more > 2 and d > 2:
            c = [j for j in range(d) if j != f]
            kf = dict(kw, candidate_conditioning_features=[int(rng.choice(c))], max_depth=1)
            with methods.silent():
                fe.fit(f, **kf)
            if fe.tree_pruned["feature_%d" % f] is not None:
                regions += compare(ctx, rng, name, fe, X, E, model, jac, f, kf, 3)
                ctx.ev("second_fits")
    ctx.ev(name)
    ctx.ev("given_effects", given)
    ctx.ev("limits_not_data", how != "none")
    ctx.ev("other_binning", "binning_method" in kw and not isinstance(kw["binning_method"], str))
    ctx.case(nontrivial=regions > 0, method=name, n=n, d=d, feature=f, kinds=kk, model=model.name, given=given, limits=how, nof=nof,
             opts={k: str(v)[:40] for k, v in kw.items()}, regions=regions, more=more, x0=float(X[0, f]))


def compare(ctx, rng, name, fe, X, E, model, jac, f, kw, limit=None):
    """Every node (or some) of the tree of f against the global effect of its own instances."""
    tree = fe.tree_pruned["feature_%d" % f]
    atol = 1e-11 * float(np.abs(model(X)).max())
    regions = 0
    for node in tree.nodes if limit is None else [tree.nodes[k] for k in rng.permutation(len(tree.nodes))[:limit]]:
        R = X[methods.path_mask(X, node)]
        if len(R) == 0:
            continue
        Re = None if E is None else E[methods.path_mask(X, node)]
        c = methods.CENTERINGS[int(rng.integers(4))]
        lo, hi = R[:, f].min(), R[:, f].max()
        xs = gen.points(rng, lo, hi, R[:, f], t=int(rng.integers(2, 12)), outside=name != "rshap")

        def want():
            o, fit = counterpart(name, kw, R, Re, model, jac, f)
            o.fit(f, centering=c, **fit)
            return o.eval(f, xs, heterogeneity=True, centering=c)

        def got(h=True):
            with methods.silent():
                return fe.eval(f, node.idx, xs, heterogeneity=h, centering=c)
        w, g = outcome(want), outcome(got)
        what = "%s feature %d node %d %r (%d instances), centering %r" % (name, f, node.idx, node.name, len(R), c)
        if isinstance(w, Exception) or isinstance(g, Exception):
            ctx.check(isinstance(w, Exception) == isinstance(g, Exception), "refusal", lambda: "%s: regional %r, global %r" % (what, g, w))
            ctx.ev("refused_both")
            continue
        tol = atol if name != "rdpdp" else 0.0
        ctx.check(ref.close(g[0], w[0], 1e-9, atol=tol), "mean", lambda: "%s: %s" % (what, ref.worst(g[0], w[0])))
        ctx.check(ref.close(g[1], w[1], 1e-9, atol=tol), "heterogeneity", lambda: "%s: %s" % (what, ref.worst(g[1], w[1])))
        y = got(False)
        ctx.check(ref.close(y, w[0], 1e-9, atol=tol), "mean-only", lambda: "%s: %s" % (what, ref.worst(y, w[0])))
        ctx.ev("nodes_compared")
        ctx.ev("heterogeneity_compared", np.any(w[1] > 0))
        ctx.ev("centred", c is not False)
        ctx.ev("root_compared", node.level == 0)
        ctx.ev("regions_compared", node.level > 0)
        ctx.ev("deep_regions", node.level > 1)
        regions += node.level > 0
    return regions


def scen_large(ctx, rng):
    """Regions with more instances than any default number of instances of the global methods."""
    name = ["rpdp", "rdpdp", "rale", "rrhale", "rshap"][int(rng.integers(5))]
    n, d = int(rng.integers(150, 260) if name == "rshap" else rng.integers(1500, 3200)), 2
    X, kk = gen.dataset(rng, n, d, ["normal", "uniform"])
    model = methods.nested(rng, X, 0)
    kw = {"max_depth": 1, "nof_candidate_splits_for_numerical": 3, "heter_small_enough": 0.0, "heter_pcg_drop_thres": 0.0}
    with methods.silent():
        fe = methods.make(name, X, model, jac=model.jac if name in ("rdpdp", "rrhale") else None)
        fe.fit(0, **kw)
    for node in fe.tree_pruned["feature_0"].nodes:
        R = X[methods.path_mask(X, node)]
        xs = gen.points(rng, R[:, 0].min(), R[:, 0].max(), t=4)
        o, fit = counterpart(name, kw, R, model.jac(R) if name == "rrhale" else None, model, model.jac, 0)
        o.fit(0, **fit)
        with methods.silent():
            g = fe.eval(0, node.idx, xs, heterogeneity=True)
            if name == "rshap":
                fe.plot(0, node.idx, heterogeneity="shap_values")
                marks = max(len(l["x"]) for l in figs.take()[0][0]["lines"] if l["style"][1] == "x")
                ctx.check(marks == len(R), "large-region-points", lambda: "%d Shapley values for %d instances" % (marks, len(R)))
        w = o.eval(0, xs, heterogeneity=True)
        for u, v in zip(g, w):
            ctx.check(ref.close(u, v, 1e-9, atol=1e-11 * float(np.abs(model(X)).max())), "large-region",
                      lambda: "%s node %d (%d instances): %s" % (name, node.idx, len(R), ref.worst(u, v)))
        ctx.ev("large_regions", len(R) > 1000)
        ctx.ev("large_shap_regions", name == "rshap" and len(R) > 100 and node.level > 0)
    ctx.case(method=name, n=n, x0=float(X[0, 0]))


SCENARIOS = [("regional", scen, 19), ("large", scen_large, 1)]
