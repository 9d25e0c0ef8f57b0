"""C24: an option left out means its default, and "all", lists and single features are the same request."""
import numpy as np
from rt import gen, ref, methods, figs
from rt.harness import Skip

WARM = methods.warm
RULE = ("twin objects under one random seed, one leaving out a random subset of the options of its constructor, fits, evaluations, plots and "
        "reports, the other spelling out the defaults of the documentation (a table in this module); data sets beyond the default numbers of "
        "instances, and regional problems within a few percent of the default thresholds; the same features asked for as 'all', as lists in "
        "any order, and one by one; non-trivial: an option was left out and answers were compared")
CASES = {"quick": 1160, "thorough": 15200}
REQUIRED = ["left_out", "answers_compared", "beyond_default_instances", "default_binning", "plots", "reports", "trees_compared", "split_trees",
            "named_binnings", "binning_classes", "at_cat_limit", "drop_above", "drop_below", "small_above", "small_below", "size_met", "size_missed",
            "types_cat", "types_cont", "categorical_foi", "requests_all", "requests_list", "default_features", "index", "limits_subsampled", "over_twenty_features",
            "pdp", "dpdp", "ale", "rhale", "shap", "rpdp", "rdpdp", "rale", "rrhale", "rshap"]
ASSUMPTIONS = ["the defaults are those of the signatures in the reference documentation of the pinned commit",
               "an axis range that is left out is that of the instances used (global) or of all instances passed (regional)"]

NOF = {"pdp": 300, "dpdp": 300, "ale": "all", "rhale": "all", "shap": 100, "rpdp": 1000, "rdpdp": 1000, "rale": "all", "rrhale": "all", "rshap": 100}


def fit_defaults(name):
    import effector as ef
    if name in ("pdp", "dpdp"):
        return {"features": "all", "centering": True, "points_for_centering": 100, "use_vectorized": True}
    if name == "ale":
        return {"features": "all", "binning_method": ef.Fixed(20, 0, 15), "centering": "zero_integral"}
    if name == "rhale":
        return {"features": "all", "binning_method": ef.Greedy(100, 0, 0.3, 15), "centering": False}
    if name == "shap":
        return {"features": "all", "centering": False, "points_for_centering": 100}
    out = {"heter_pcg_drop_thres": 0.1, "heter_small_enough": 0.1, "max_depth": 1, "nof_candidate_splits_for_numerical": 20,
           "min_points_per_subregion": 10, "candidate_conditioning_features": "all", "split_categorical_features": False, "centering": False}
    if name in ("rpdp", "rdpdp"):
        out.update(features="all", nof_instances="all", points_for_centering=100, use_vectorized=True)
    elif name == "rale":
        out.update(binning_method=ef.Fixed(20, 0, 15))
    elif name == "rrhale":
        out.update(features="all", binning_method=ef.Greedy(100, 10, 0.3, 15))
    else:
        out.update(points_for_centering=100)
    return out


def plot_defaults(name):
    out = {"heterogeneity": False, "centering": False, "scale_x": None, "scale_y": None, "show_avg_output": False, "y_limits": None}
    if name in ("ale", "rhale"):
        out["dy_limits"] = None
    if name in ("pdp", "dpdp"):
        out.update(nof_points=30, nof_ice="all", use_vectorized=True)
    if name == "shap":
        out.update(nof_points=30, nof_shap_values="all")
    if name[0] == "r" and name != "rhale":
        out = {"heterogeneity": False, "centering": False, "scale_x_list": None, "scale_y": None, "y_limits": None}
        if name in ("rale", "rrhale"):
            out["dy_limits"] = None
    return out


def omit(ctx, rng, options, keep=()):
    """A random subset of the options, often none at all."""
    p = rng.choice([0.0, 0.3, 0.7])
    out = {k: v for k, v in options.items() if k in keep or rng.random() < p}
    ctx.ev("left_out", len(options) - len(out))
    return out


def build(name, X, model, jac, effect, kw):
    """Constructor by keywords only."""
    import effector as ef
    cls = {"pdp": ef.PDP, "dpdp": ef.DerPDP, "ale": ef.ALE, "rhale": ef.RHALE, "shap": ef.ShapDP, "rpdp": ef.RegionalPDP,
           "rdpdp": ef.RegionalDerPDP, "rale": ef.RegionalALE, "rrhale": ef.RegionalRHALE, "rshap": ef.RegionalShapDP}[name]
    kw = dict(kw)
    if jac is not None:
        kw["model_jac"] = jac
    if effect is not None:
        kw["instance_effects" if name == "rrhale" else "data_effect"] = effect
    return cls(X, model, **kw)


def value(fn):
    """An answer, or the refusal."""
    try:
        return "value", fn()
    except AssertionError as e:
        return "refused", str(e)[:60]


def same(ctx, key, what, a, b, scale, rtol=1e-9):
    ctx.check(a[0] == b[0], key, lambda: "%s: %r with options left out, %r with the defaults spelled out" % (what, a, b))
    if a[0] == "refused":
        return False
    u, v = a[1], b[1]
    if isinstance(u, str):
        ctx.check(u == v, key, lambda: "%s: %r with options left out, %r spelled out" % (what, u[:300], v[:300]))
    elif isinstance(u, list):
        m = figs.same(u, v, rtol)
        ctx.check(m is None, key, lambda: "%s differs with the defaults spelled out: %s" % (what, m))
    else:
        u, v = (u, v) if isinstance(u, tuple) else ((u,), (v,))
        ctx.check(len(u) == len(v) if isinstance(v, tuple) else False, key, lambda: "%s: %d arrays and %d spelled out" % (what, len(u), len(v)))
        for x, y in zip(u, v):
            ctx.check(np.shape(x) == np.shape(y) and ref.close(x, y, rtol, scale), key, lambda: "%s: %s" % (what, ref.worst(x, y)))
    ctx.ev("answers_compared")
    return True


def draw(fe, *a, **kw):
    with methods.silent():
        fe.plot(*a, **kw)
    return figs.take()


def scen_global(ctx, rng):
    import effector as ef
    k = ctx.index // 18
    name = methods.GLOBAL[k % 5]
    X, kk, f, model, lim, how, L = methods.problem(rng, name, nmax=150, how="none", dmax=3)
    n, d = X.shape
    if rng.random() < (0.3 if name != "shap" else 0.15):
        # more instances than are used by default
        n = int(rng.integers(310, 420) if name in ("pdp", "dpdp") else rng.integers(105, 130) if name == "shap" else n)
        X, kk = gen.dataset(rng, n, d, [str(rng.choice([c for c in gen.COLS if c not in ("offset", "tiny")])) for _ in range(d)])
        X = methods.grid(X) if name == "shap" else X
        model = gen.model(rng, X, foi=f)
        if not methods.valid_feature(X, gen.full_limits(X, None), f):
            raise Skip("degenerate feature")
    jac = model.jac if name in ("dpdp", "rhale") else None
    effect = model.jac(X) if name == "rhale" and rng.random() < 0.3 else None
    seed = int(rng.integers(2 ** 31))
    con = {"nof_instances": NOF[name], "axis_limits": None, "avg_output": None, "feature_names": None, "target_name": None}
    np.random.seed(seed)
    a = build(name, X, model, jac, effect, omit(ctx, rng, con))
    used = np.array(a.data)
    if len(np.unique(used[:, f])) < 2:
        raise Skip("degenerate feature")
    spelled = dict(con, axis_limits=gen.full_limits(used, None), avg_output=float(np.mean(model(used))),
                   feature_names=["x_%d" % j for j in range(d)], target_name="y")
    if rng.random() < 0.3:
        spelled["feature_names"] = spelled["target_name"] = None
    np.random.seed(seed)
    b = build(name, X, model, jac, effect, spelled)
    ctx.check(np.array_equal(np.sort(used, axis=0), np.sort(np.array(b.data), axis=0)), "instances",
              lambda: "%d instances used by default, %d with the default number spelled out" % (len(used), len(b.data)))
    ctx.check(len(used) == (n if NOF[name] == "all" else min(n, NOF[name])), "instances", lambda: "%d of %d instances used by default" % (len(used), n))
    ctx.ev("beyond_default_instances", len(used) < n)
    ctx.ev("limits_subsampled", len(used) < n and not np.array_equal(gen.full_limits(used, None), gen.full_limits(X, None)))
    full = fit_defaults(name)
    r = rng.random()
    mode = "unfitted" if r < 0.2 else "fit"
    # shap explains all features at once, and all features may not be binnable
    every = name != "shap" and all(len(np.unique(used[:, j])) > 1 for j in range(d))
    sc = float(np.abs(model(used)).max())
    if name == "dpdp" or name == "rhale":
        sc = max(sc, float(np.abs(model.jac(used)).max()) * max(1.0, float(np.ptp(used[:, f]))))
    if mode == "fit":
        o = omit(ctx, rng, full)
        ctx.ev("default_binning", "binning_method" in full and "binning_method" not in o)
        if not every or rng.random() < 0.5:
            o["features"] = f
        ctx.ev("default_features", "features" not in o)
        s = dict(full, features=o.get("features", "all"))
        fa, fb = value(lambda: a.fit(**o)), value(lambda: b.fit(**s))
        ctx.check(fa[0] == fb[0], "fit", lambda: "fit %r with options left out, %r with the defaults" % (fa, fb))
        if fa[0] == "refused":
            raise Skip("refused")
    xs = gen.points(rng, float(used[:, f].min()), float(used[:, f].max()), used[:, f], t=int(rng.integers(1, 12)))
    ev = {"heterogeneity": False, "centering": False}
    if name in ("pdp", "dpdp"):
        ev.update(return_all=False, use_vectorized=True)
    given = {}
    if rng.random() < 0.5:
        given["heterogeneity"] = True
    if rng.random() < 0.4:
        given["centering"] = methods.CENTERINGS[1 + int(rng.integers(3))]
    o = dict(omit(ctx, rng, ev), **given)
    rt = 1e-6 if name == "shap" else 1e-9
    ok = same(ctx, name + "-eval", "eval(%r)" % o, value(lambda: a.eval(f, xs, **o)), value(lambda: b.eval(f, xs, **dict(ev, **given))), sc, rt)
    pd = plot_defaults(name)
    given = {}
    if rng.random() < 0.4:
        given["heterogeneity"] = True
    if rng.random() < 0.3:
        given["show_avg_output"] = True
    if rng.random() < 0.3:
        given["scale_y"] = {"mean": 1.5, "std": 2.0}
    o = dict(omit(ctx, rng, pd), **given)
    pa, pb = value(lambda: draw(a, f, **o)), value(lambda: draw(b, f, **dict(pd, **given)))
    ok = same(ctx, name + "-plot", "plot(%r)" % o, pa, pb, sc, 1e-6 if name == "shap" else 1e-8) and ok
    ctx.ev("plots", ok)
    ctx.ev(name)
    ctx.case(nontrivial=ok, method=name, n=n, d=d, kinds=kk, feature=f, model=model.name, mode=mode, x0=float(X[0, 0]))


def dump(tree):
    if tree is None:
        return "none"
    return repr([(m.idx, m.name, m.level, m.nof_instances, "%.9g" % m.weight, "%.7g" % m.heterogeneity, m.data.get("feature"),
                  "%.12g" % m.data["position"] if m.data.get("position") is not None else None, m.data.get("comparison")) for m in tree.nodes])


def reports(fe, f, a, b):
    with methods.silent() as buf:
        fe.show_partitioning(f, **a)
        fe.describe_subregions(f, **b)
    return buf.getvalue()


def scen_regional(ctx, rng):
    k = ctx.index // 18
    name = "rshap" if k % 16 == 15 else methods.REGIONAL[k % 4]
    X, kk, f, model = methods.regional_problem(rng, name, nmin=24, nmax=140)
    n, d = X.shape
    if rng.random() < 0.04 and name in ("rpdp", "rdpdp"):
        n = int(rng.integers(1005, 1100))
        X, kk = gen.dataset(rng, n, d)
        model = gen.model(rng, X, ("interacting",), foi=f)
    elif rng.random() < 0.05 and name == "rshap":
        n = int(rng.integers(101, 110))
        X, kk = gen.dataset(rng, n, d, ["uniform"] * d)
        X = methods.grid(X)
        model = gen.model(rng, X, ("interacting",), foi=f)
    jac = model.jac if name in ("rdpdp", "rrhale") else None
    effect = model.jac(X) if name == "rrhale" and rng.random() < 0.3 else None
    seed = int(rng.integers(2 ** 31))
    con = {"nof_instances": NOF[name], "axis_limits": None, "feature_types": None, "cat_limit": 10, "feature_names": None, "target_name": None}
    spelled = dict(con, axis_limits=gen.full_limits(X, None), feature_types=methods.types_of(X, 10),
                   feature_names=["x_%d" % j for j in range(d)], target_name="y")
    np.random.seed(seed)
    a = build(name, X, model, jac, effect, omit(ctx, rng, con))
    np.random.seed(seed)
    b = build(name, X, model, jac, effect, spelled)
    ctx.check(len(a.data) == (n if NOF[name] == "all" else min(n, NOF[name])), "instances", lambda: "%d of %d instances used by default" % (len(a.data), n))
    ctx.ev("beyond_default_instances", len(a.data) < n)
    ctx.ev("types_cat", "cat" in spelled["feature_types"])
    ctx.ev("types_cont", "cont" in spelled["feature_types"])
    if np.ptp(np.array(a.data)[:, f]) == 0:
        raise Skip("degenerate")
    full = fit_defaults(name)
    given = {}
    if rng.random() < 0.4:
        given["split_categorical_features"] = True
    if rng.random() < 0.3 and d > 2:
        given["max_depth"] = 2
    if rng.random() < 0.3:
        given["heter_small_enough"] = 0.0
    if rng.random() < 0.3:
        given["min_points_per_subregion"] = 5
    if rng.random() < 0.3 and name != "rale":
        given["centering"] = methods.CENTERINGS[1 + int(rng.integers(3))]
    o = dict(omit(ctx, rng, full), **given)
    ctx.ev("default_binning", "binning_method" in full and "binning_method" not in o)
    every = name in ("rpdp", "rdpdp", "rrhale") and d <= 3 and n < 80 and np.all(np.ptp(np.array(a.data), axis=0) > 0) and rng.random() < 0.3
    if not every or "features" in o:
        o["features"] = f
    ctx.ev("default_features", "features" not in o)
    s = dict(full, **given)
    s["features"] = o.get("features", "all")
    with methods.silent():
        fa, fb = value(lambda: a.fit(**o)), value(lambda: b.fit(**s))
    ctx.check(fa[0] == fb[0], "fit", lambda: "fit %r with options left out, %r with the defaults" % (fa, fb))
    if fa[0] == "refused":
        raise Skip("refused")
    ctx.case(method=name, n=n, d=d, kinds=kk, feature=f, model=model.name, opts=sorted(o), given=sorted(given), x0=float(X[0, 0]))
    key = "feature_%d" % f
    for t in ("tree_full", "tree_pruned"):
        u, v = dump(getattr(a, t)[key]), dump(getattr(b, t)[key])
        ctx.check(u == v, name + "-" + t, lambda: "%s with %r given: %s, with the defaults spelled out: %s" % (t, sorted(o), u[:700], v[:700]))
        ctx.ev("trees_compared")
    ctx.ev("split_trees", a.tree_full[key] is not None and len(a.tree_full[key].nodes) > 1)
    ra = {"only_important": True, "scale_x_list": None}
    ta, tb = value(lambda: reports(a, f, omit(ctx, rng, ra), omit(ctx, rng, ra))), value(lambda: reports(b, f, ra, ra))
    same(ctx, "report", "reports", ta, tb, 1.0)
    ctx.ev("reports")
    if a.tree_pruned[key] is None:
        ctx.case(nontrivial=True)
        ctx.ev(name)
        return
    node = a.tree_pruned[key].nodes[int(rng.integers(len(a.tree_pruned[key].nodes)))].idx
    sc = float(np.abs(model(np.array(a.data))).max())
    if name in ("rdpdp", "rrhale"):
        sc = max(sc, float(np.abs(model.jac(np.array(a.data))).max()) * max(1.0, float(np.ptp(X[:, f]))))
    xs = gen.points(rng, float(X[:, f].min()), float(X[:, f].max()), X[:, f], t=int(rng.integers(1, 8)))
    ev = {"heterogeneity": False, "centering": False}
    g = {"heterogeneity": True} if rng.random() < 0.5 else {}
    o = dict(omit(ctx, rng, ev), **g)
    rt = 1e-6 if name == "rshap" else 1e-9
    same(ctx, name + "-eval", "eval(%r)" % o, value(lambda: a.eval(f, node, xs, **o)), value(lambda: b.eval(f, node, xs, **dict(ev, **g))), sc, rt)
    if rng.random() < 0.5:
        pd = plot_defaults(name)
        g = {"heterogeneity": True} if rng.random() < 0.4 else {}
        o = dict(omit(ctx, rng, pd), **g)
        same(ctx, name + "-plot", "plot(%r)" % o, value(lambda: draw(a, f, node, **o)), value(lambda: draw(b, f, node, **dict(pd, **g))), sc, 1e-6)
        ctx.ev("plots")
    ctx.ev(name)
    ctx.case(nontrivial=True)


def scen_binning(ctx, rng):
    """Binning classes and names, with their defaults left out, on populations and numbers of values around these."""
    import effector as ef
    n = int(rng.integers(30, 400))
    d = 2
    X = gen.dataset(rng, n, d, ["uniform", "normal"])[0]
    if rng.random() < 0.4:
        u = int(rng.integers(13, 18))
        v = np.sort(rng.normal(size=u)) * 3
        X[:, 0] = rng.permutation(np.concatenate([v, rng.choice(v, n - u)]))
        ctx.ev("at_cat_limit", u in (14, 15, 16))
    elif rng.random() < 0.5:
        # about 10 instances per cell of the default grid
        X[:, 0] = rng.permutation(np.concatenate([[0.0, 1.0], rng.random(n - 2)])) * rng.choice([1.0, 7.0])
    model = gen.Hash(d, int(rng.integers(1000)), 1.0) if rng.random() < 0.5 else gen.model(rng, X, ("rough", "interacting"), foi=0)
    k = int(rng.integers(5))
    rh = k != 0 and rng.random() < 0.7 or k in (1, 2, 3)
    a, b = [(ef.Fixed, {"nof_bins": 100, "min_points_per_bin": 10, "cat_limit": 15}),
            (ef.Greedy, {"init_nof_bins": 100, "min_points_per_bin": 10, "discount": 0.3, "cat_limit": 15}),
            (ef.DynamicProgramming, {"max_nof_bins": 20, "min_points_per_bin": 10, "discount": 0.3, "cat_limit": 15}),
            ("dp", (ef.DynamicProgramming, {"max_nof_bins": 20, "min_points_per_bin": 0, "discount": 0.3, "cat_limit": 15})),
            ("fixed", (ef.Fixed, {"nof_bins": 20, "min_points_per_bin": 0, "cat_limit": 15}))][k]
    if isinstance(a, str):
        left, right = a, b[0](**b[1])
        ctx.ev("left_out")
        ctx.ev("named_binnings")
    else:
        given = {}
        if a is ef.Fixed or rng.random() < 0.5:
            given[list(b)[0]] = int(rng.integers(1, 12))
        elif rng.random() < 0.3:
            given["min_points_per_bin"] = int(rng.integers(0, 5))
        left, right = a(**dict(omit(ctx, rng, b), **given)), a(**dict(b, **given))
        ctx.ev("binning_classes")
    fa, fb = [ef.RHALE(X, model, model.jac) if rh else ef.ALE(X, model) for _ in range(2)]
    u, v = value(lambda: fa.fit(0, binning_method=left)), value(lambda: fb.fit(0, binning_method=right))
    ctx.check(u[0] == v[0], "binning-fit", lambda: "%s: %r with options left out, %r spelled out" % (left, u, v))
    desc = dict(n=n, kind=str(a), rh=rh, values=len(np.unique(X[:, 0])), x0=float(X[0, 0]))
    if u[0] == "value":
        p, q = [np.asarray(z.feature_effect["feature_0"]["limits"]) for z in (fa, fb)]
        ctx.check(p.shape == q.shape and np.array_equal(p, q), "binning-limits", lambda: "%s: limits %r with options left out, %r spelled out" % (left, p[:6], q[:6]))
        ctx.ev("answers_compared")
    ctx.case(nontrivial=True, refused=u[0] == "refused", **desc)


def factorial(rng, m, share=None):
    """x1 on m levels crossed with three signs; with a share, x2 is positive for that many instances only."""
    g = np.array([(x, a, b, c) for x in np.linspace(0.2, 1.8, m) for a in (-1, 1) for b in (-1, 1) for c in (-1, 1)], dtype=float)
    return g[rng.permutation(len(g))]


class Signs(gen.Base):
    """x1 * (s x2 + t x3 x4): splitting on x2 removes s, no other single split removes anything."""
    name, smooth = "signs", True

    def __init__(self, s, t, out=1.0):
        super().__init__(4)
        self.s, self.t, self.out = s, t, out

    def f(self, X):
        return self.out * X[:, 0] * (self.s * np.sign(X[:, 1]) + self.t * X[:, 2] * X[:, 3])

    def g(self, X):
        J = np.zeros(X.shape)
        J[:, 0] = self.out * (self.s * np.sign(X[:, 1]) + self.t * X[:, 2] * X[:, 3])
        J[:, 2] = self.out * X[:, 0] * self.t * X[:, 3]
        J[:, 3] = self.out * X[:, 0] * self.t * X[:, 2]
        return J


def depth(tree):
    return 0 if tree is None else max(m.level for m in tree.nodes)


def scen_sharp(ctx, rng):
    """Problems within a few percent of a default threshold."""
    k = (ctx.index // 19) * 5 + ctx.index % 19 - 11
    name = methods.REGIONAL[k % 5]
    what = ["drop", "small", "size", "types", "drop", "small", "size", "types", "catsplit"][k // 5 % 9]
    if what == "size" and name in ("rale", "rrhale", "rshap"):
        name = str(rng.choice(["rpdp", "rdpdp"]))       # a few instances may be too few for ALE bins
    if what in ("drop", "small") and name == "rshap" and rng.random() < 0.5:
        name = "rdpdp"
    import effector as ef
    given = {"binning_method": ef.Fixed(20, 0)} if name == "rrhale" else {}
    m = int(rng.integers(11, 16)) if name != "rshap" else 11
    X = factorial(rng, m)

    def fit(Z, model, **more):
        jac = model.jac if name in ("rdpdp", "rrhale") else None
        with methods.silent():
            fe = build(name, Z, model, jac, None, {})
            fe.fit(features=0, **dict(given, **more))
        return fe.tree_full["feature_0"], fe.tree_pruned["feature_0"]

    if what == "drop":
        eps = float(rng.uniform(0.002, 0.009))
        target = 0.1 + (eps if rng.random() < 0.5 else -eps)
        s = 1.0 * np.sqrt(1 / (1 - target) ** 2 - 1)
        full, pruned = fit(X, Signs(s, 1.0, 3.0), heter_small_enough=0.0)
        for _ in range(6 if name == "rshap" else 0):
            # no closed form: search for the strength
            h0 = full.nodes[0].heterogeneity
            now = (h0 - sum(n.heterogeneity * n.weight for n in full.nodes if n.level == 1)) / h0
            if abs(now - target) < 5e-4 or now <= 0 or now >= 0.9:
                break
            s *= np.sqrt((1 / (1 - target) ** 2 - 1) / (1 / (1 - now) ** 2 - 1))
            full, pruned = fit(X, Signs(s, 1.0, 3.0), heter_small_enough=0.0)
        ctx.check(depth(full) == 1, "depth", lambda: "the full tree has depth %d with max_depth left out" % depth(full))
        h0 = full.nodes[0].heterogeneity
        h1 = sum(n.heterogeneity * n.weight for n in full.nodes if n.level == 1)
        drop = (h0 - h1) / h0
        if abs(drop - target) > 1e-3:
            raise Skip("other drop")
        ctx.check((depth(pruned) == 1) == (drop > 0.1), "default-drop-threshold",
                  lambda: "a relative drop of %.4f is%s important by default" % (drop, "" if depth(pruned) else " not"))
        ctx.ev("drop_above" if drop > 0.1 else "drop_below")
        ctx.case(nontrivial=True, method=name, what=what, target=target, m=m)
    elif what == "small":
        full, pruned = fit(X, Signs(1.0, 0.1), heter_small_enough=0.0)
        h0 = full.nodes[0].heterogeneity
        r = float(rng.uniform(0.01, 0.08)) * (1 if rng.random() < 0.5 else -1)
        full, pruned = fit(X, Signs(1.0, 0.1, 0.1 * (1 + r) / h0))
        ctx.check((depth(pruned) == 1) == (r > 0), "default-small-enough",
                  lambda: "a heterogeneity of %.4f is%s small enough by default" % (0.1 * (1 + r), " not" if depth(pruned) else ""))
        ctx.ev("small_above" if r > 0 else "small_below")
        ctx.case(nontrivial=True, method=name, what=what, r=r, m=m)
    elif what == "catsplit":
        Z = X.copy()
        Z[:, 0] = np.round(Z[:, 0] * 3)        # fewer than 10 values: categorical
        full, pruned = fit(Z, Signs(2.0, 0.1), heter_small_enough=0.0)
        ctx.check(depth(full) == 0 and depth(pruned) == 0, "default-categorical", "a categorical feature is split by default")
        full, pruned = fit(Z, Signs(2.0, 0.1), heter_small_enough=0.0, split_categorical_features=True)
        ctx.check(depth(full) == 1, "default-categorical", "a categorical feature is not split on request")
        ctx.ev("categorical_foi")
        ctx.case(nontrivial=True, method=name, what=what, m=m)
    elif what == "size":
        k = int(rng.choice([8, 9, 10, 11]))
        # k instances only with a positive x2, spread over x1
        Z = X.copy()
        Z[:, 1] = -1.0
        Z[rng.permutation(len(Z))[:k], 1] = 1.0
        Z[:, 2] = 1.0
        Z[:, 3] = 1.0
        full, pruned = fit(Z, Signs(40.0, 1.0), heter_small_enough=0.0, heter_pcg_drop_thres=0.0)
        ctx.check((depth(pruned) == 1) == (k >= 10), "default-minimum-size", lambda: "a region of %d instances is%s allowed by default" % (k, "" if depth(pruned) else " not"))
        ctx.ev("size_met" if k >= 10 else "size_missed")
        ctx.case(nontrivial=True, method=name, what=what, k=k, m=m)
    else:
        u = int(rng.choice([8, 9, 10, 11]))
        Z = X[:, :3].copy()
        vals = np.arange(u) * 1.0
        Z[:, 1] = rng.permutation(np.resize(vals, len(Z)))
        Z[:, 2] = 1.0
        at = float(vals[int(rng.integers(1, u - 1))])
        if name in ("rale", "rrhale") and rng.random() < 0.4:      # thousands of instances, the last values only among the last of them
            late = int(rng.integers(1, 4))
            n = int(rng.integers(2000, 12000))
            Z = Z[rng.integers(0, len(Z), n)]
            Z[:, 1] = np.resize(vals[:u - late], n)
            Z[-20 * late:, 1] = np.resize(vals[u - late:], 20 * late)
            at = float(vals[int(rng.integers(1, u - late - 1))])
            ctx.ev("late_values")
        s = float(rng.uniform(2, 4))
        model = methods.Nested(3, np.zeros(3), np.ones(3), 0, [(1, "cat", at)], [s], 0.0)
        full, pruned = fit(Z, model, heter_small_enough=0.0, min_points_per_subregion=5)
        ctx.check(depth(full) == 1, "depth", lambda: "the full tree has depth %d with max_depth left out" % depth(full))
        cmp_ = sorted(n.data["comparison"] for n in full.nodes if n.level == 1)
        split_on = {n.data["feature"] for n in full.nodes if n.level == 1}
        if split_on == {1}:
            want = ["!=", "=="] if u < 10 else ["<=", ">"]
            ctx.check(cmp_ == want, "default-cat-limit", lambda: "a feature of %d values is split by %r by default" % (u, cmp_))
            ctx.ev("types_cat" if u < 10 else "types_cont")
            if u >= 10:
                pos = float(full.nodes[1].data["position"])
                e = np.linspace(vals[0], vals[-1], 21)
                ctx.check(np.min(np.abs(pos - 0.5 * (e[1:] + e[:-1]))) < 1e-9, "default-candidates", lambda: "split at %r, none of the 20 positions" % pos)
        ctx.case(nontrivial=True, method=name, what=what, values=u, m=m)
    ctx.ev(name)


def scen_features(ctx, rng):
    """The same features asked for together, in lists of any order, and one by one."""
    name = str(rng.choice(["pdp", "dpdp", "ale", "rhale", "shap", "rpdp", "rale", "rrhale"], p=[.2, .1, .2, .2, .06, .08, .08, .08]))
    reg = name[0] == "r" and name != "rhale"
    X, kk, f, model, lim, how, L = methods.problem(rng, name, nmax=60, dmin=2, dmax=4 if not reg else 3, how="none", nmin=15, wide_p=0.05 if reg else 0.35, deep=0.6)
    d = X.shape[1]
    ctx.ev("over_twenty_features", d > 20)
    if not all(methods.valid_feature(X, L, j) for j in range(d)):
        raise Skip("degenerate")
    jac = model.jac if name in ("dpdp", "rhale", "rrhale") else None
    if reg:
        kw = dict(methods.regional_options(rng, name, d), nof_candidate_splits_for_numerical=3)
        kw.update({} if d < 10 else {"max_depth": 1})
    else:
        kw, _ = methods.fit_options(rng, name)
    objs = []
    lists = ["all", list(range(d)), [int(j) for j in rng.permutation(d)], [int(j) for j in rng.permutation(d)] + [f], "one by one"]
    if rng.random() < 0.5 or d > 9:
        lists = [lists[0], lists[2], lists[4]]
    for fs in lists:
        fe = methods.make(name, X, model, jac=jac)
        out = []
        with methods.silent():
            for part in ([fs] if fs != "one by one" else rng.permutation(d).tolist()):
                out.append(value(lambda: fe.fit(part, **kw))[0])
        objs.append((fs, fe, "refused" if "refused" in out else "value"))
        ctx.ev("requests_all", fs == "all")
        ctx.ev("requests_list", isinstance(fs, list))
    for fs, fe, r in objs[1:]:
        ctx.check(r == objs[0][2], "features-refused", lambda: "fit(%r) is %s, fit('all') is %s" % (fs, r, objs[0][2]))
    if objs[0][2] == "refused":
        raise Skip("refused")
    sc = float(np.abs(model(X)).max())
    if name in ("dpdp", "rhale", "rrhale"):
        sc = max(sc, float(np.abs(model.jac(X)).max() * max(1.0, np.ptp(X, axis=0).max())))
    c = methods.CENTERINGS[int(rng.integers(4))]
    for j in range(d):
        xs = gen.points(rng, L[0, j], L[1, j], X[:, j], t=5)
        if reg:
            base = [dump(t["feature_%d" % j]) for t in (objs[0][1].tree_full, objs[0][1].tree_pruned)]
        else:
            base = value(lambda: objs[0][1].eval(j, xs, heterogeneity=True, centering=c))
        for fs, fe, _ in objs[1:]:
            if reg:
                got = [dump(t["feature_%d" % j]) for t in (fe.tree_full, fe.tree_pruned)]
                ctx.check(got == base, "features-trees", lambda: "feature %d: %s after fit(%r), %s after fit('all')" % (j, got, fs, base))
                ctx.ev("trees_compared")
            else:
                same(ctx, "features-" + name, "feature %d after fit(%r) and fit('all')" % (j, fs),
                     value(lambda: fe.eval(j, xs, heterogeneity=True, centering=c)), base, sc, 1e-6 if name == "shap" else 1e-9)
    ctx.ev(name)
    ctx.case(nontrivial=True, method=name, n=len(X), d=d, kinds=kk, model=model.name, x0=float(X[0, 0]), opts={k: str(v)[:30] for k, v in kw.items()})


def scen_index(ctx, rng):
    from effector.interaction import HIndex, REPID
    if rng.random() < 0.5:
        n = int(rng.integers(990, 1020))
        X = rng.normal(size=(n, 2))
        np.random.seed(5)
        a = HIndex(X, lambda Z: Z[:, 0])
        np.random.seed(5)
        b = HIndex(X, lambda Z: Z[:, 0], 1000)
        ctx.check(len(a.data) == min(1000, n) and np.array_equal(a.data, b.data), "index-instances", lambda: "%d of %d instances by default" % (len(a.data), n))
        ctx.ev("beyond_default_instances", n > 1000)
        ctx.case(nontrivial=True, n=n, x0=float(X[0, 0]))
        ctx.ev("index")
        return
    n, d = gen.pick_n(rng, 5, 24), int(rng.integers(2, 4))
    X = rng.normal(size=(n, d))
    model = gen.model(rng, X, ("interacting", "rough", "hash"))
    with methods.silent():
        a, b, p, q = HIndex(X, model), HIndex(X, model, "all"), REPID(X, model, None, "all"), REPID(X, model, None, "all")
        a.fit()
        b.fit(pairwise_matrix=True, one_vs_all=True)
        p.fit()
        q.fit("all" if rng.random() < 0.5 else [int(j) for j in rng.permutation(d)])
        for u, v, w in ((a.interaction_matrix, b.interaction_matrix, "pairwise"), (a.one_vs_all_matrix, b.one_vs_all_matrix, "one-vs-all"),
                        (p.one_vs_all_matrix, q.one_vs_all_matrix, "REPID")):
            ctx.check(ref.close(u, v, 1e-9), "index-fit", lambda: "%s: %s" % (w, ref.worst(u, v)))
            ctx.check(np.all(np.isfinite(u)) and np.max(np.abs(u)) < 1e7 or w == "REPID", "index-fit", lambda: "%s is not complete after fit(): %r" % (w, u))
            ctx.ev("answers_compared")
        a.plot()
        A = figs.take()
        b.plot(interaction_matrix=True, one_vs_all=True)
        B = figs.take()
    m = figs.same(A, B)
    ctx.check(m is None, "index-plot", lambda: "plot() and the plot of both: %s" % m)
    ctx.ev("index")
    ctx.ev("left_out", 3)
    ctx.case(nontrivial=True, n=n, d=d, model=model.name, x0=float(X[0, 0]))


SCENARIOS = [("global", scen_global, 4), ("regional", scen_regional, 4), ("binning", scen_binning, 3), ("sharp", scen_sharp, 5), ("features", scen_features, 2), ("index", scen_index, 1)]
