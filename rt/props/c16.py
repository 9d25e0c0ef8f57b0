"""C16: methods agree where theory says so: additive, linear, ignored features; effects are additive in the model."""
import numpy as np
from rt import gen, ref, methods, figs
from rt.harness import Skip

WARM = methods.warm
RULE = ("models additive in the feature (any univariate part plus an arbitrary, also bit-hash, function of the others), linear models, models that "
        "ignore the feature, and sums of models, on independent, correlated and collinear data, against closed forms; global and regional "
        "methods; non-trivial: the feature has an effect (or, for ignored features, the others have)")
CASES = {"quick": 2600, "thorough": 40000}
REQUIRED = ["additive_pdp", "additive_dpdp", "additive_ale", "additive_shap", "zero_heterogeneity", "ice_coincide", "linear_pdp", "linear_ale", "linear_rhale",
            "linear_dpdp", "linear_shap", "ignored_pdp", "ignored_dpdp", "ignored_ale", "ignored_rhale", "ignored_shap", "correlated", "collinear",
            "superposed_pdp", "superposed_dpdp", "superposed_ale", "superposed_rhale", "superposed_shap", "regional_roots", "finite_differences", "limits_not_data", "linear_centred"]
ASSUMPTIONS = ["ALE equals the feature function at its bin limits, up to bins without instances (interpolated by definition)",
               "d-PDP and RHALE without a Jacobian are judged up to the error of finite differences of smooth models"]


class AddIn(gen.Base):
    """g(x_f) + h(x_-f), h arbitrary; the rest is evaluated with the feature held at a constant."""
    name = "additive-in"

    def __init__(self, d, f, g, dg, rest, at, smooth=True):
        super().__init__(d)
        self.foi, self.g1, self.dg1, self.rest, self.at, self.smooth = f, g, dg, rest, at, smooth

    def _hold(self, X):
        Z = X.copy()
        Z[:, self.foi] = self.at
        return Z

    def f(self, X):
        return self.g1(X[:, self.foi]) + self.rest.f(self._hold(X))

    def g(self, X):
        J = self.rest.g(self._hold(X))
        J[:, self.foi] = self.dg1(X[:, self.foi])
        return J


class Sum(gen.Base):
    def __init__(self, a, b, u, v):
        super().__init__(a.d)
        self.a, self.b, self.u, self.v = a, b, u, v
        self.smooth, self.name = a.smooth and b.smooth, "sum"

    def f(self, X):
        return self.u * self.a.f(X) + self.v * self.b.f(X)

    def g(self, X):
        return self.u * self.a.g(X) + self.v * self.b.g(X)


def data(ctx, rng, name):
    nmax, kinds = 120, gen.COLS
    d = int(rng.integers(1, 5))
    if name.endswith("shap"):
        nmax, kinds, d = 36, [k for k in gen.COLS if k not in ("offset", "tiny")], int(rng.integers(1, 4))
    n = gen.pick_n(rng, 4, nmax)
    X, kk = gen.dataset(rng, n, d, [str(rng.choice(kinds)) for _ in range(d)])
    f = int(rng.integers(d))
    for j in range(d):
        if j != f and rng.random() < 0.35:
            if rng.random() < 0.3:
                X[:, j] = X[:, f]
                ctx.ev("collinear")
            else:
                X[:, j] = X[:, f] * float(rng.normal()) + X[:, f].std() * 0.2 * rng.normal(size=n)
            ctx.ev("correlated")
    if name.endswith("shap"):
        X = methods.grid(X)
    lim, how = gen.limits(rng, X)
    L = gen.full_limits(X, lim)
    if not methods.valid_feature(X, L, f):
        raise Skip("degenerate feature")
    ctx.ev("limits_not_data", how != "none")
    ctx.case(nontrivial=False, method=name, n=n, d=d, feature=f, kinds=kk, limits=how, x0=float(X[0, f]))
    return X, f, lim, L


def rest_of(rng, X, f):
    r = rng.random()
    if r < 0.4:
        return gen.Hash(X.shape[1], int(rng.integers(1000)), float(10 ** rng.uniform(-1, 2)))
    return gen.interacting(rng, X) if r < 0.8 else gen.linear(rng, X)


def scale(X, model, f, L):
    return float(max(np.max(np.abs(model(X))), np.max(np.abs(ref.ice(model, X, f, np.linspace(L[0, f], L[1, f], 9)))))) + 1e-300


def fit(fe, f, name, rng, fixed=False):
    kw, desc = methods.fit_options(rng, name)
    if fixed and name == "rhale":
        kw["binning_method"] = "fixed"
    with methods.refusals_skip():
        fe.fit(f, **kw)
    return kw, desc


def shap_points(fe, f):
    with methods.silent():
        fe.plot(f, heterogeneity="shap_values", centering=False)
    marks = [l for l in figs.take()[0][0]["lines"] if l["style"][1] == "x"]
    m = max(marks, key=lambda l: len(l["x"]))
    return m["x"], m["y"]


def zero_heterogeneity(ctx, key, h, tol):
    ctx.check(np.all(np.isfinite(h)) and np.all(np.abs(h) <= tol), key, lambda: "heterogeneity %r, tolerance %.3g" % (h[np.argmax(np.abs(h))], tol))
    ctx.ev("zero_heterogeneity")


def points(rng, name, X, L, f):
    xs = gen.points(rng, L[0, f], L[1, f], X[:, f], t=int(rng.integers(2, 20)), outside=name in ("pdp", "dpdp"))
    if name == "shap":
        k = gen.in_range(X, L, f)
        xs = np.clip(xs, X[k, f].min(), X[k, f].max())
    return xs


def scen_additive(ctx, rng):
    name = ["pdp", "dpdp", "ale", "shap"][int(rng.choice(4, p=[.35, .25, .3, .1]))]
    X, f, lim, L = data(ctx, rng, name)
    u = str(rng.choice(list(gen.Terms.UNI)))
    g0, dg0 = gen.Terms.UNI[u]
    m, s, a = X[:, f].mean(), X[:, f].std() * float(rng.uniform(0.3, 2)), float(10 ** rng.uniform(-2, 2))
    g, dg = (lambda x: a * g0((x - m) / s)), (lambda x: a * dg0((x - m) / s) / s)
    model = AddIn(X.shape[1], f, g, dg, rest_of(rng, X, f), m)
    M = scale(X, model, f, L)
    xs = points(rng, name, X, L, f)
    fd = name == "dpdp" and u in ("id", "sq", "sin", "tanh", "exp") and rng.random() < 0.3 and s > 1e-2
    fe = methods.make(name, X, model, lim, jac=model.jac if name == "dpdp" and not fd else None)
    kw, desc = fit(fe, f, name, rng)
    c = methods.CENTERINGS[int(rng.integers(1, 4))]
    with methods.refusals_skip():
        y, h = fe.eval(f, xs, heterogeneity=True, centering=c)
    if name == "pdp":
        D = np.subtract.outer(y, y)
        W = np.subtract.outer(g(xs), g(xs))
        ctx.check(ref.close(D, W, 1e-10, M), "additive-pdp", lambda: "centred PDP is not the feature function up to a constant: " + ref.worst(D, W))
        zero_heterogeneity(ctx, "additive-pdp-heterogeneity", h, 1e-10 * M)
        I = fe.eval(f, xs, centering=c, return_all=True)
        ctx.check(np.ptp(I, axis=1).max() <= 1e-10 * M, "additive-ice", lambda: "centred ICE curves differ by %r" % np.ptp(I, axis=1).max())
        ctx.ev("ice_coincide", I.shape[1])
        if c == "zero_start":
            w = g(xs) - g(L[0, f])
            ctx.check(ref.close(y, w, 1e-10, M), "additive-pdp", lambda: ref.worst(y, w))
    elif name == "dpdp":
        y0, h0 = fe.eval(f, xs, heterogeneity=True, centering=False)
        G = np.max(np.abs(dg(np.linspace(L[0, f], L[1, f], 50)))) + np.max(np.abs(dg(xs)))
        tol = 1e-10 * G if not fd else 1e-4 * G * (1 + (1e-2 / s)) + 1e-9 * M
        ctx.check(np.max(np.abs(y0 - dg(xs))) <= tol + 1e-300, "additive-dpdp", lambda: ref.worst(y0, dg(xs)))
        zero_heterogeneity(ctx, "additive-dpdp-heterogeneity", h0, tol)
        zero_heterogeneity(ctx, "additive-dpdp-heterogeneity", h, 2 * tol)
        ctx.ev("finite_differences", fd)
    elif name == "ale":
        par = fe.feature_effect["feature_%d" % f]
        l = par["limits"]
        with methods.refusals_skip():
            at = fe.eval(f, l, centering=c)
        tot = float(np.sum(np.abs(np.diff(g(l)))))
        full = par["points_per_bin"] > 0
        w, v = np.diff(g(l)), np.diff(at)
        ctx.check(np.all(np.abs(w - v)[full] <= 1e-10 * (M + tot)), "additive-ale", lambda: "increments between bin limits: " + ref.worst(v[full], w[full]))
        zero_heterogeneity(ctx, "additive-ale-heterogeneity", h, 1e-8 * M)
    else:
        px, py = shap_points(fe, f)
        R = X[gen.in_range(X, L, f), f]
        w = g(px) - g(R).mean()
        ctx.check(ref.close(py, w, 1e-9, M), "additive-shap", lambda: "Shapley values are not the centred feature function: " + ref.worst(py, w))
    ctx.ev("additive_" + name)
    ctx.case(nontrivial=np.ptp(g(xs)) > 0, model=u, fit=desc, centering=c)


def scen_linear(ctx, rng):
    name = methods.GLOBAL[int(rng.choice(5, p=[.22, .18, .25, .27, .08]))]
    X, f, lim, L = data(ctx, rng, name)
    b = rng.normal(size=X.shape[1]) * 10 ** rng.uniform(-1, 2) / np.where(X.std(axis=0) > 0, X.std(axis=0), 1.0)
    loc = X.mean(axis=0)

    class Lin(gen.Base):
        def f(self, Z):
            y = np.full(len(Z), 1.5)
            for j in range(Z.shape[1]):
                y = y + b[j] * (Z[:, j] - loc[j])
            return y

        def g(self, Z):
            return np.tile(b, (len(Z), 1))
    model = Lin(X.shape[1])
    M = scale(X, model, f, L) + float(np.sum(np.abs(b) * np.ptp(X, axis=0)))
    xs = points(rng, name, X, L, f)
    given = name == "rhale" and rng.random() < 0.4
    fe = methods.make(name, X, model, lim, jac=model.jac if name in ("dpdp", "rhale") else None, effect=model.jac(X) if given else None)
    kw, desc = fit(fe, f, name, rng)
    c = methods.CENTERINGS[int(rng.integers(4))]
    if name in ("ale", "rhale"):         # bins of categorical features need not reach the ends of the axis
        l = fe.feature_effect["feature_%d" % f]["limits"]
        xs = np.clip(xs, l[0], l[-1])
    with methods.refusals_skip():
        y, h = fe.eval(f, xs, heterogeneity=True, centering=c)
    if name == "dpdp":
        w = np.full(len(xs), b[f] if c is False else 0.0)
        ctx.check(ref.close(y, w, 1e-10, abs(b[f])), "linear-dpdp", lambda: ref.worst(y, w))
        zero_heterogeneity(ctx, "linear-dpdp-heterogeneity", h, 1e-10 * abs(b[f]))
    else:
        D, W = np.subtract.outer(y, y), b[f] * np.subtract.outer(xs, xs)
        tol = {"shap": 1e-6}.get(name, 1e-9)
        # ALE divides differences of the output by narrow bins; that error returns multiplied by their width
        ctx.check(ref.close(D, W, tol, M), "linear-" + name, lambda: "slope is not the coefficient %r: %s" % (b[f], ref.worst(D, W)))
        if name == "ale" or name == "rhale":
            zero_heterogeneity(ctx, "linear-%s-heterogeneity" % name, h, 1e-8 * M)
            e = fe.feature_effect["feature_%d" % f]
            ctx.check(np.all(np.abs(e["bin_effect"] - b[f]) * e["dx"] <= 1e-9 * M), "linear-%s-bins" % name, lambda: "bin effects %r for coefficient %r" % (e["bin_effect"], b[f]))
        elif name == "pdp" and c is not False:
            zero_heterogeneity(ctx, "linear-pdp-heterogeneity", h, 1e-10 * M)
        elif name == "shap":
            zero_heterogeneity(ctx, "linear-shap-heterogeneity", h, 1e-6 * M)
            if c is False:
                w = b[f] * (xs - X[gen.in_range(X, L, f), f].mean())
                ctx.check(ref.close(y, w, 1e-6, M), "linear-shap", lambda: ref.worst(y, w))
    if name in ("pdp", "ale", "rhale") and c is not False and (name == "pdp" or l[0] <= L[0, f] and l[-1] >= L[1, f]):
        # centred over the whole axis, whatever the distribution of the instances
        w = b[f] * (xs - (L[0, f] if c == "zero_start" else L[:, f].mean()))
        ctx.check(ref.close(y, w, 1e-9, M), "linear-%s-centred" % name, lambda: "centering %r: %s" % (c, ref.worst(y, w)))
        ctx.ev("linear_centred")
    ctx.ev("linear_" + name)
    ctx.case(nontrivial=True, fit=desc, centering=c, coef=float(b[f]))


def scen_ignored(ctx, rng):
    name = methods.GLOBAL[int(rng.choice(5, p=[.22, .2, .25, .25, .08]))]
    X, f, lim, L = data(ctx, rng, name)
    rest = rest_of(rng, X, f)
    model = AddIn(X.shape[1], f, lambda x: 0.0 * x, lambda x: 0.0 * x, rest, float(X[:, f].mean()))
    M = scale(X, model, f, L)
    xs = points(rng, name, X, L, f)
    fd = name in ("dpdp", "rhale") and rng.random() < 0.4       # finite differences of an ignored feature are exact
    fe = methods.make(name, X, model, lim, jac=model.jac if name in ("dpdp", "rhale") and not fd else None)
    kw, desc = fit(fe, f, name, rng)
    c = methods.CENTERINGS[int(rng.integers(4))]
    with methods.refusals_skip():
        y, h = fe.eval(f, xs, heterogeneity=True, centering=c)
    if name == "pdp" and c is False:
        k = gen.in_range(X, L, f)
        w = np.full(len(xs), np.mean(model(X[k])))
        ctx.check(ref.close(y, w, 1e-10, M), "ignored-pdp", lambda: ref.worst(y, w))
    else:
        tol = 1e-10 * M if name != "shap" else 1e-7 * M
        ctx.check(np.all(np.abs(y) <= tol), "ignored-" + name, lambda: "centring %r: effect %r of an ignored feature" % (c, y[np.argmax(np.abs(y))]))
        zero_heterogeneity(ctx, "ignored-%s-heterogeneity" % name, h, tol)
    ctx.ev("ignored_" + name)
    ctx.ev("finite_differences", fd)
    ctx.case(nontrivial=np.ptp(model(X)) > 0, fit=desc, centering=c, model=rest.name)


def scen_superposed(ctx, rng):
    """The effect of a sum of models is the sum of their effects."""
    name = methods.GLOBAL[int(rng.choice(5, p=[.25, .2, .25, .2, .1]))]
    X, f, lim, L = data(ctx, rng, name)
    A, B = gen.model(rng, X, foi=f), gen.model(rng, X, foi=f)
    u, v = (float(t) for t in rng.normal(size=2))
    S = Sum(A, B, u, v)
    xs = points(rng, name, X, L, f)
    kw, desc = methods.fit_options(rng, name)
    if name == "rhale" and not (isinstance(kw["binning_method"], str) and kw["binning_method"] == "fixed"):
        import effector as ef
        kw["binning_method"] = ef.Fixed(int(rng.integers(1, 15)), 0, 4)
    c = methods.CENTERINGS[int(rng.integers(4))]
    out, sc = [], 0.0
    for m, w in ((A, u), (B, v), (S, 1.0)):
        fe = methods.make(name, X, m, lim, jac=m.jac if name in ("dpdp", "rhale") else None)
        with methods.refusals_skip():
            fe.fit(f, **kw)
            if name == "shap":
                px, py = shap_points(fe, f)
                i = np.lexsort((np.arange(len(px)), px))
                out.append((px[i], w * py[i]))
            else:
                out.append((xs, w * fe.eval(f, xs, centering=c)))
        if name in ("dpdp", "rhale"):
            t = np.max(np.abs(m.jac(X)[:, f])) + np.max(np.abs(ref.dice(m.jac, X, f, np.concatenate([xs, np.linspace(L[0, f], L[1, f], 9)]))))
            t = t * (1.0 if name == "dpdp" else max(L[1, f] - L[0, f], np.ptp(xs)))
        else:
            t = scale(X, m, f, L)
            if name == "ale":
                e = fe.feature_effect["feature_%d" % f]
                t = max(t, float(np.sum(np.abs(e["bin_effect"] * e["dx"]))))
        sc = max(sc, abs(w) * t)
    (x1, a), (x2, b), (x3, s) = out
    if name == "shap" and len(np.unique(x1)) < len(x1):
        raise Skip("ties")
    ctx.check(np.array_equal(x1, x3) and ref.close(a + b, s, 1e-9, sc), "superposed-" + name, lambda: "the effect of u*A+v*B is not u*effect(A)+v*effect(B): " + ref.worst(a + b, s))
    ctx.ev("superposed_" + name)
    ctx.case(nontrivial=np.ptp(s) > 0, fit=desc, centering=c, model=A.name + "+" + B.name)


def scen_regional(ctx, rng):
    """No subregions for features without interactions."""
    name = ["rpdp", "rdpdp", "rale", "rrhale"][int(rng.integers(4))]
    X, kk, f, _ = methods.regional_problem(rng, name, nmin=12, nmax=70)
    m, s, a = X[:, f].mean(), X[:, f].std(), float(rng.uniform(0.5, 3))
    u = str(rng.choice(["id"] if name == "rrhale" else ["id", "sq", "sin", "tanh", "exp"]))
    g0, dg0 = gen.Terms.UNI[u]
    model = AddIn(X.shape[1], f, lambda x: a * g0((x - m) / s), lambda x: a * dg0((x - m) / s) / s, rest_of(rng, X, f), m)
    kw = methods.regional_options(rng, name, X.shape[1])
    kw["heter_small_enough"] = float(rng.choice([1e-3, 0.1])) * float(rng.choice([1.0, 10.0]))
    M = float(np.max(np.abs(model(X)))) + a * np.max(np.abs(g0((X[:, f] - m) / s)))
    if name == "rpdp":
        kw["centering"] = [True, "zero_integral", "zero_start"][int(rng.integers(3))]
    tol = 1e-8 * M if name != "rdpdp" else 1e-9 * a / s
    if tol > 0.1 * kw["heter_small_enough"]:
        raise Skip("rounding above the threshold")
    with methods.silent(), methods.refusals_skip():
        fe = methods.make(name, X, model, jac=model.jac if name in ("rdpdp", "rrhale") else None, nof="all")
        fe.fit(f, **kw)
    full, pruned = fe.tree_full["feature_%d" % f], fe.tree_pruned["feature_%d" % f]
    if pruned is None:
        raise Skip("no tree")
    h = float(pruned.nodes[0].data["heterogeneity"])
    ctx.check(h <= tol or h >= 1e20, "regional-heterogeneity", lambda: "%s: heterogeneity %r without interactions, tolerance %r" % (name, h, tol))
    ctx.check(len(pruned.nodes) == 1, "regional-splits", lambda: "%s: %d nodes without interactions" % (name, len(pruned.nodes)))
    ctx.ev("regional_roots")
    ctx.case(nontrivial=True, method=name, n=len(X), d=X.shape[1], feature=f, kinds=kk, model=u, rest=model.rest.name, opts={k: str(v)[:40] for k, v in kw.items()}, x0=float(X[0, f]))


SCENARIOS = [("additive", scen_additive, 4), ("linear", scen_linear, 3), ("ignored", scen_ignored, 3), ("superposed", scen_superposed, 3), ("regional", scen_regional, 2)]
