"""C19: units do not matter - scaling the output or the features scales the effects."""
import numpy as np
from rt import gen, ref, methods, figs
from rt.harness import Skip

WARM = methods.warm
RULE = ("pairs of runs: the same problem in other units (power-of-two factors over up to 35 orders of magnitude for the output and for every feature, "
        "with limits, thresholds and Jacobian converted), and with a constant added to the output; global methods, regional trees with their evaluations and interaction "
        "indices; non-trivial: a curve that varies")
CASES = {"quick": 2000, "thorough": 30000}
REQUIRED = ["output_scaled", "feature_scaled", "other_feature_scaled", "large_output", "small_output", "large_feature", "small_feature", "negative_output", "shifted",
            "trees_compared", "splits_compared", "bins_compared", "hindex", "repid", "pdp", "dpdp", "ale", "rhale", "shap", "rpdp", "rdpdp", "rale", "rrhale", "rshap",
            "limits_not_data", "finite_differences", "refused_both", "shap_values_scaled", "shifted_trees"]
ASSUMPTIONS = ["in regional searches heterogeneities stay below the library's sentinel 1e30",
               "the spline of a SHAP dependence plot smooths by a documented absolute amount, so that output scaling is claimed for the SHAP values only",
               "finite differences take steps of fixed length, so that without a Jacobian only the output is scaled"]


class Units(gen.Base):
    """The same black box, for inputs and outputs in other units."""
    name = "units"

    def __init__(self, inner, a, b, shift=0.0):
        super().__init__(inner.d)
        self.inner, self.a, self.b, self.shift, self.smooth = inner, a, b, shift, inner.smooth

    def f(self, X):
        return self.inner.f(X / self.b) * self.a + self.shift

    def g(self, X):
        return self.inner.g(X / self.b) * self.a / self.b


class Quantised(gen.Base):
    """Outputs on a dyadic grid, so that adding a constant is exact."""
    name = "quantised"

    def __init__(self, inner, bits=14):
        super().__init__(inner.d)
        self.inner, self.q = inner, 2.0 ** bits
        self.smooth = False

    def f(self, X):
        return np.round(self.inner.f(X) * self.q) / self.q

    def g(self, X):
        return self.inner.g(X)


def factors(ctx, rng, d, model, X, jac, same_features=False, shap=False, most=1e60):
    """Output factor and feature factors, as powers of two that keep outputs and slopes below `most`."""
    kb = rng.integers(-40, 41, d) if rng.random() < 0.7 else rng.integers(-150, 151, d)
    kb[rng.random(d) < 0.4] = 0
    if shap:
        kb = rng.integers(0, 20, d)     # shap takes values closer than 1e-8 for equal
    if same_features:
        kb[:] = 0
    b = 2.0 ** kb
    v = float(np.max(np.abs(model(X)))) + 1e-300
    j = float(np.max(np.abs(model.jac(X)) / b)) + 1e-300
    ka = int(rng.integers(-50, 80)) if rng.random() < 0.6 else int(rng.integers(-180, 180))
    ka = min(ka, int(np.floor(np.log2(min(most / v, most / j)))))
    if ka < -200:
        raise Skip("factor too small")
    sign = -1.0 if rng.random() < 0.3 else 1.0
    ctx.ev("large_output", ka > 20)
    ctx.ev("small_output", ka < -20)
    return sign * 2.0 ** ka, b


def same(ctx, got, want, key, scale=None, rtol=1e-10):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    s = np.max(np.abs(want), initial=0) if scale is None else scale
    ctx.check(got.shape == want.shape and bool(np.all(np.isfinite(got) == np.isfinite(want))) and ref.close(got, want, rtol, s), key,
              lambda: ref.worst(got, want) if got.shape == want.shape else "shapes %r, %r" % (got.shape, want.shape))


def outcome(fn):
    try:
        return fn()
    except AssertionError as e:
        return e


def both(ctx, one, two, what):
    u, v = outcome(one), outcome(two)
    if isinstance(u, AssertionError) or isinstance(v, AssertionError):
        ctx.check(isinstance(u, AssertionError) and isinstance(v, AssertionError), "refusal", lambda: "%s: %r in one unit, %r in the other" % (what, u, v))
        ctx.ev("refused_both")
        return None
    return u, v


def scen_global(ctx, rng):
    name = methods.GLOBAL[int(rng.choice(5, p=[.22, .2, .24, .24, .1]))]
    X, kk, f, model, lim, how, L = methods.problem(rng, name, nmax=100)
    d = X.shape[1]
    fd = name in ("dpdp", "rhale") and model.smooth and rng.random() < 0.15
    jac = model.jac if name in ("dpdp", "rhale") and not fd else None
    if name == "shap" and rng.random() < 0.3:
        return shap_values(ctx, rng, X, model, f, lim)
    a, b = factors(ctx, rng, d, model, X, jac, same_features=fd, shap=name == "shap")
    if name == "shap":
        a = 1.0
    if fd:
        # a step of 1e-8 makes slopes of rough models very large
        a = float(np.sign(a) * min(abs(a), 2.0 ** 10))
    m2 = Units(model, a, b)
    slope = a / b[f] if name == "dpdp" else a
    g = methods.make(name, X, model, lim, jac=jac)
    h = methods.make(name, X * b, m2, None if lim is None else lim * b, jac=m2.jac if jac is not None else None)
    kw, fdesc = methods.fit_options(rng, name)
    if both(ctx, lambda: g.fit(f, **kw), lambda: h.fit(f, **kw), "fit") is None:
        ctx.case(nontrivial=False, method=name, x0=float(X[0, f]))
        return
    xs = gen.points(rng, L[0, f], L[1, f], X[:, f], outside=name != "shap")
    for c in [kw["centering"], methods.CENTERINGS[int(rng.integers(4))]]:
        u = g.eval(f, xs, heterogeneity=True, centering=c)
        v = h.eval(f, xs * b[f], heterogeneity=True, centering=c)
        s = np.max(np.abs(g.eval(f, xs))) + np.max(np.abs(u[0]))
        if name == "shap":
            s = s * 1e3      # ill-conditioned splines
        same(ctx, v[0], slope * u[0], name + "-mean", s * abs(slope))
        same(ctx, v[1], abs(slope) * u[1], name + "-heterogeneity", (np.max(np.abs(u[1])) + (s if name != "shap" else 10 * s)) * abs(slope) if name in ("pdp", "dpdp", "shap") else None)
        if name in ("pdp", "dpdp"):
            same(ctx, h.eval(f, xs * b[f], centering=c, return_all=True), slope * g.eval(f, xs, centering=c, return_all=True), name + "-ice")
    if name in ("ale", "rhale"):
        p, q = g.feature_effect["feature_%d" % f], h.feature_effect["feature_%d" % f]
        same(ctx, q["limits"], p["limits"] * b[f], name + "-bins", rtol=1e-12)
        ctx.ev("bins_compared")
    ctx.ev(name)
    ctx.ev("finite_differences", fd)
    ctx.ev("output_scaled", abs(a) != 1)
    ctx.ev("negative_output", a < 0)
    ctx.ev("feature_scaled", b[f] != 1)
    ctx.ev("large_feature", b[f] > 1e6)
    ctx.ev("small_feature", b[f] < 1e-6)
    ctx.ev("other_feature_scaled", np.any(np.delete(b, f) != 1))
    ctx.ev("limits_not_data", how != "none")
    ctx.case(nontrivial=np.ptp(u[0]) > 0, method=name, n=len(X), d=d, feature=f, kind=kk[f], model=model.name, limits=how, fit=fdesc, a=a, b=b, x0=float(X[0, f]))


def shap_values(ctx, rng, X, model, f, lim):
    a = float(2.0 ** rng.integers(-20, 30)) * (-1 if rng.random() < 0.5 else 1)
    g = methods.make("shap", X, model, lim)
    h = methods.make("shap", X, Units(model, a, np.ones(X.shape[1])), lim)
    g.fit(f)
    h.fit(f)
    p, q = g.feature_effect["feature_%d" % f], h.feature_effect["feature_%d" % f]
    same(ctx, q["xx"], p["xx"], "shap-points")
    same(ctx, q["yy"], a * p["yy"], "shap-values", abs(a) * float(np.max(np.abs(model(X)))))
    ctx.ev("shap_values_scaled", len(p["yy"]))
    ctx.case(method="shap", a=a, n=len(X), x0=float(X[0, f]))


def compare_trees(ctx, one, two, hs, b, key, rtol=1e-10):
    """The same nodes, conditions (in units b), populations and heterogeneities (times hs)."""
    ctx.check((one is None) == (two is None), key + "-tree", lambda: "%r in one unit, %r in the other" % (one, two))
    if one is None:
        return
    ctx.check([n.idx for n in one.nodes] == [n.idx for n in two.nodes] and [n.level for n in one.nodes] == [n.level for n in two.nodes], key + "-nodes",
              lambda: "%r and %r" % ([n.idx for n in one.nodes], [n.idx for n in two.nodes]))
    for u, v in zip(one.nodes, two.nodes):
        if u.level:
            ctx.check(u.data["feature"] == v.data["feature"] and u.data["comparison"] == v.data["comparison"], key + "-feature",
                      lambda: "%r and %r" % ((u.data["feature"], u.data["comparison"]), (v.data["feature"], v.data["comparison"])))
            p = u.data["position"] * b[u.data["feature"]]
            ctx.check(abs(v.data["position"] - p) <= 1e-12 * abs(p), key + "-position", lambda: "%r and %r" % (p, v.data["position"]))
            ctx.ev("splits_compared")
        ctx.check(u.data["nof_instances"] == v.data["nof_instances"] and u.data["weight"] == v.data["weight"], key + "-population", "different populations")
        x, y = u.data["heterogeneity"], v.data["heterogeneity"]
        if x < 1e29:
            ctx.check(abs(y - hs * x) <= 1e-9 * hs * abs(x) + 1e-13 * hs * ctx.atol, key + "-heterogeneity", lambda: "%r becomes %r, times %r" % (x, y, hs))
    ctx.ev("trees_compared")


def scen_regional(ctx, rng):
    name = methods.REGIONAL[int(rng.choice(5, p=[.26, .2, .24, .24, .06]))]
    X, kk, f, model = methods.regional_problem(rng, name, nmin=12)
    n, d = X.shape
    jac = model.jac if name in ("rdpdp", "rrhale") else None
    a, b = factors(ctx, rng, d, model, X, jac, shap=name == "rshap", most=1e20)
    a = abs(a)
    if name == "rshap":
        a = 1.0
    m2 = Units(model, a, b)
    kw = methods.regional_options(rng, name, d)
    hs = a / b[f] if name == "rdpdp" else a
    if rng.random() < 0.5:
        kw["heter_small_enough"] = 0.0
    kw2 = dict(kw, heter_small_enough=kw["heter_small_enough"] * hs)
    with methods.silent():
        g = methods.make(name, X, model, jac=jac)
        h = methods.make(name, X * b, m2, jac=m2.jac if jac is not None else None)
        if both(ctx, lambda: g.fit(f, **kw), lambda: h.fit(f, **kw2), "fit") is None:
            ctx.case(nontrivial=False, method=name, x0=float(X[0, f]))
            return
    ctx.atol = float(np.max(np.abs(model(X)))) if name != "rdpdp" else float(np.max(np.abs(model.jac(X)[:, f])))
    one, two = g.tree_pruned["feature_%d" % f], h.tree_pruned["feature_%d" % f]
    if name == "rshap" and one is not None:
        pass
    compare_trees(ctx, one, two, hs, b, name)
    if one is not None:
        for node in [one.nodes[int(i)] for i in rng.permutation(len(one.nodes))[:2]]:
            R = X[methods.path_mask(X, node)]
            xs = gen.points(rng, R[:, f].min(), R[:, f].max(), R[:, f], t=5, outside=name != "rshap")
            c = methods.CENTERINGS[int(rng.integers(4))]
            with methods.silent():
                r = both(ctx, lambda: g.eval(f, node.idx, xs, heterogeneity=True, centering=c), lambda: h.eval(f, node.idx, xs * b[f], heterogeneity=True, centering=c), "eval")
            if r is None:
                continue
            s = np.max(np.abs(r[0][0])) + np.max(np.abs(r[0][1])) + ctx.atol * (1e3 if name == "rshap" else 1e-2)
            same(ctx, r[1][0], hs * r[0][0], name + "-mean", hs * s)
            same(ctx, r[1][1], hs * r[0][1], name + "-spread", hs * s)
    ctx.ev(name)
    ctx.ev("output_scaled", a != 1)
    ctx.ev("feature_scaled", b[f] != 1)
    ctx.case(nontrivial=one is not None, method=name, n=n, d=d, feature=f, kinds=kk, model=model.name, opts={k: str(v)[:30] for k, v in kw.items()}, a=a, b=b, x0=float(X[0, f]))


def scen_shift(ctx, rng):
    """Adding a constant to the output."""
    c0 = float(rng.integers(-4000, 4000)) * float(rng.choice([1.0, 1.0, 64.0]))
    regional = rng.random() < 0.4
    if regional:
        name = "rale"
        X, kk, f, inner = methods.regional_problem(rng, name, nmin=12)
        how, lim, L = "none", None, gen.full_limits(X, None)
    else:
        name = methods.GLOBAL[int(rng.choice(5, p=[.3, .15, .25, .15, .15]))]
        X, kk, f, inner, lim, how, L = methods.problem(rng, name, nmax=100)
    v = float(np.max(np.abs(inner(X)))) + 1e-300
    inner = gen.Scaled(inner, 2.0 ** -max(0, int(np.ceil(np.log2(v)))))
    model = Quantised(inner)
    m2 = Units(model, 1.0, np.ones(X.shape[1]), c0)
    jac = model.jac if name in ("dpdp", "rhale") else None
    if regional:
        kw = methods.regional_options(rng, name, X.shape[1])
        with methods.silent():
            g, h = methods.make(name, X, model), methods.make(name, X, m2)
            if both(ctx, lambda: g.fit(f, **kw), lambda: h.fit(f, **kw), "fit") is None:
                return
        one, two = g.tree_pruned["feature_%d" % f], h.tree_pruned["feature_%d" % f]
        ctx.atol = 1.0
        compare_trees(ctx, one, two, 1.0, np.ones(X.shape[1]), "shift")
        ctx.ev("shifted_trees", one is not None)
    else:
        g, h = methods.make(name, X, model, lim, jac=jac), methods.make(name, X, m2, lim, jac=jac and m2.jac)
        kw, fdesc = methods.fit_options(rng, name)
        if both(ctx, lambda: g.fit(f, **kw), lambda: h.fit(f, **kw), "fit") is None:
            return
        xs = gen.points(rng, L[0, f], L[1, f], X[:, f], outside=name != "shap")
        for c in [False, methods.CENTERINGS[int(rng.integers(1, 4))]]:
            u, w = g.eval(f, xs, heterogeneity=True, centering=c), h.eval(f, xs, heterogeneity=True, centering=c)
            s = np.max(np.abs(u[0])) + np.max(np.abs(u[1])) + (abs(c0) + 2.0) * (1e-3 if name == "pdp" else 1.0 if name == "shap" else 0.0)
            same(ctx, w[0], u[0] + (c0 if name == "pdp" and c is False else 0.0), name + "-shifted-mean", s)
            same(ctx, w[1], u[1], name + "-shifted-heterogeneity", s)
    ctx.ev("shifted")
    ctx.case(method=name, n=len(X), feature=f, kind=kk[f], limits=how, shift=c0, x0=float(X[0, f]))


def scen_indices(ctx, rng):
    import effector.interaction as inter
    n, d = int(rng.integers(3, 25)), int(rng.integers(2, 5))
    X, kk = gen.dataset(rng, n, d)
    model = gen.model(rng, X, ("linear", "additive", "interacting", "rough", "hash"))
    a, b = factors(ctx, rng, d, model, X, None)
    m2 = Units(model, a, b)
    f = int(rng.integers(d))
    if rng.random() < 0.6:
        with methods.silent():
            g, h = inter.HIndex(X, model, n), inter.HIndex(X * b, m2, n)
            i, j = [int(q) for q in rng.permutation(d)[:2]]
            u, v = g.eval_pairwise(i, j), h.eval_pairwise(i, j)
            w, z = g.eval_one_vs_all(f), h.eval_one_vs_all(f)
        for p, q in ((u, v), (w, z)):
            if np.isfinite(p) or np.isfinite(q):
                ctx.check(abs(p - q) <= 1e-9 * (1 + abs(p)), "h-index", lambda: "%r in one unit, %r in the other" % (p, q))
        ctx.ev("hindex")
    else:
        if X[:, f].min() == X[:, f].max():
            raise Skip("constant feature")
        with methods.silent():
            u = inter.REPID(X, model, None, n).eval_one_vs_all(f)
            v = inter.REPID(X * b, m2, None, n).eval_one_vs_all(f)
        ctx.check(abs(v - abs(a) * u) <= 1e-9 * abs(a) * (u + 1e-3 * np.max(np.abs(model(X)))), "repid", lambda: "%r in one unit, %r in the other (factor %r)" % (u, v, a))
        ctx.ev("repid")
    ctx.case(nontrivial=u > 1e-12, n=n, d=d, feature=f, model=model.name, a=a, b=b, x0=float(X[0, f]))


SCENARIOS = [("global", scen_global, 4), ("regional", scen_regional, 3), ("shift", scen_shift, 2), ("indices", scen_indices, 1)]
