"""C15: effects do not depend on how the same data is represented."""
import numpy as np
from rt import gen, ref, methods
from rt.harness import Skip

WARM = methods.warm
RULE = ("pairs of runs on the same problem represented differently: rows permuted or duplicated, other memory layouts and numeric types of data, "
        "limits, derivatives, points or model outputs, columns permuted together with the model, defaults spelled out, points evaluated together, "
        "one by one or in another order; five global methods, regional trees under row permutations; non-trivial: a heterogeneity above zero")
CASES = {"quick": 2000, "thorough": 30000}
REQUIRED = ["rows", "duplicated", "layout", "columns", "spelled_out", "pointwise", "output_type", "ice_permuted", "bins_compared",
            "regional_rows", "regional_levels", "small_ints", "narrow_types", "float32", "fortran", "strided", "pdp", "dpdp", "ale", "rhale", "shap", "unsigned_output", "bool_output",
            "variable_bins", "few_values_first", "duplicated_heterogeneity"]
ASSUMPTIONS = ["a different choice between binnings (or splits) of equal cost, up to rounding, is no difference",
               "duplication is only compared where no rule counts instances (fixed bins; bins of one instance have no variance)"]


class Cols:
    """The model for data whose columns are permuted: column k of the new data is column perm[k] of the old."""

    def __init__(self, model, perm):
        self.model, self.d = model, model.d
        self.inv, self.perm = np.argsort(perm), perm
        self.smooth = getattr(model, "smooth", False)

    def __call__(self, Z):
        return self.model(np.ascontiguousarray(np.asarray(Z)[:, self.inv]))

    def jac(self, Z):
        return self.model.jac(np.ascontiguousarray(np.asarray(Z)[:, self.inv]))[:, self.perm]


def represent(ctx, rng, A, what="data"):
    """The same values in another layout and, where they allow it, another numeric type."""
    A = np.array(A)
    r = rng.random()
    if A.dtype.kind == "f" and np.all(A == np.round(A)) and np.abs(A).max() < 100 and r < 0.8:
        A = A.astype([np.int64, np.int32, np.int8, np.int16][int(rng.integers(4))] if A.min() < 0 or rng.random() < 0.5 else np.uint8)
        ctx.ev("small_ints")
    elif A.dtype.kind == "f" and np.array_equal(A.astype(np.float32).astype(float), A) and r < 0.8:
        A = A.astype(np.float32)
        ctx.ev("float32")
    elif r > 0.9 and A.dtype.kind == "f":
        A = A.astype(">f8")
        ctx.ev("byte_order")
    r = rng.random()
    if r < 0.3:
        A = np.asfortranarray(A)
        ctx.ev("fortran")
    elif r < 0.6:
        big = np.zeros(tuple(2 * s for s in A.shape), dtype=A.dtype)
        sl = tuple(slice(None, None, 2) for _ in A.shape)
        big[sl] = A
        A = big[sl]
        ctx.ev("strided")
    elif r < 0.8:
        sl = tuple(slice(None, None, -1) for _ in A.shape)
        A = np.ascontiguousarray(A[sl])[sl]
        ctx.ev("reversed_strides")
    else:
        A = A.copy()
    if rng.random() < 0.3:
        A.setflags(write=False)
    return A


class Run:
    """One fitted global object, its answers at the points, or its refusal."""

    def __init__(self, name, X, model, lim, f, kw, xs, jac=None, effect=None, nof="all", cents=(False,), fit_kw=None):
        self.f = f
        self.refused, self.ans, self.par, self.ice, self.shap = None, {}, None, None, None
        try:
            fe = methods.make(name, X, model, lim, jac=jac, effect=effect, nof=nof)
            fe.fit(f, **kw)
            for c in cents:
                self.ans[c] = fe.eval(f, xs, heterogeneity=True, centering=c)
            if name in ("pdp", "dpdp"):
                self.ice = fe.eval(f, xs, centering=False, return_all=True)
            e = fe.feature_effect["feature_%d" % f]
            if name in ("ale", "rhale"):
                self.par = e
            if name == "shap":
                self.shap = (e["xx"], e["yy"])
            self.fe = fe
        except AssertionError as e:
            if not methods.refused(e):
                raise
            self.refused = e


def compare(ctx, key, name, a, b, sc, rtol=1e-9, heter=True, flips=None):
    """Answers of two runs; flips() tells whether the choice of bins of the first run hangs on rounding."""
    if a.refused or b.refused:
        ctx.check(bool(a.refused) == bool(b.refused) or (flips is not None and flips()), key + "-refusal",
                  lambda: "%s: %r / %r" % (name, a.refused, b.refused))
        raise Skip("refused in both")
    if a.par is not None:
        la, lb = a.par["limits"], b.par["limits"]
        ok = len(la) == len(lb) and ref.close(la, lb, 1e-9)
        if not ok:
            ctx.check(flips is not None and flips(), key + "-bins", lambda: "%s: limits %r and %r" % (name, la, lb))
            ctx.ev("binning_ties")
            return False
        ctx.ev("bins_compared")
        sc = max(sc, float(np.sum(np.abs(a.par["bin_effect"] * a.par["dx"]))))
    if name.startswith("shap"):
        ka, kb = (o.fe.feature_effect["feature_%d" % o.f] for o in (a, b))
        if any(len(ka[k].get_knots()) != len(kb[k].get_knots()) for k in ("spline_mean", "spline_std")):
            ctx.ev("spline_ties")       # where the smoothing spline puts its knots hinges on rounding; C09 checks the curves
            return False
    for c in a.ans:
        u, v = a.ans[c], b.ans[c]
        ctx.check(ref.close(u[0], v[0], rtol, sc), key + "-mean", lambda: "%s, centering %r: %s" % (name, c, ref.worst(u[0], v[0])))
        if heter:
            # a variance that is zero up to rounding has a square root of half the digits
            ctx.check(ref.close(u[1], v[1], max(rtol, 1e-8), max(sc, np.max(np.abs(u[1])))), key + "-heterogeneity",
                      lambda: "%s, centering %r: %s" % (name, c, ref.worst(u[1], v[1])))
        ctx.case(nontrivial=bool(np.any(u[1] > 1e-6 * sc)))
    return True


def base(ctx, rng, dmin=1, fixed=False, shap=True, small=False):
    p = np.array([.22, .18, .25, .27, .08 if shap else 0.0])
    name = methods.GLOBAL[int(rng.choice(5, p=p / p.sum()))]
    kinds = ["rounded", "int_wide", "cat_even", "binary"] if small else None
    X, kk, f, model, lim, how, L = methods.problem(rng, name, dmin=dmin, nmin=5, kinds=kinds)
    if small:
        X = np.round(X)
    if not methods.valid_feature(X, gen.full_limits(X, lim), f):
        raise Skip("degenerate feature")
    # finite differences magnify the rounding of the model; they get a tolerance of their own by being left out
    jac = model.jac if name in ("dpdp", "rhale") else None
    effect = model.jac(X) if name == "rhale" and rng.random() < 0.4 else None
    kw, desc = methods.fit_options(rng, name)
    if fixed and name in ("ale", "rhale"):
        import effector as ef
        nb = int(rng.integers(1, 12))
        kw["binning_method"], desc = ef.Fixed(nb, 0, 3), "Fixed(%d)" % nb
    L = gen.full_limits(X, lim)
    xs = gen.points(rng, L[0, f], L[1, f], X[:, f], t=int(rng.integers(2, 14)), outside=name != "shap")
    if name == "shap":
        xs = np.clip(xs, X[gen.in_range(X, L, f), f].min(), X[gen.in_range(X, L, f), f].max())
    cents = [False, methods.CENTERINGS[int(rng.integers(1, 4))]]
    M = np.max(np.abs(model(X)))
    sc = {"dpdp": 0, "rhale": 0}.get(name, M)
    if jac is not None:
        g = np.linspace(L[0, f], L[1, f], 5)
        sc = max(np.max(np.abs(model.jac(X)[:, f])), np.max(np.abs(ref.dice(model.jac, X, f, g)))) * (1.0 if name == "dpdp" else L[1, f] - L[0, f])
    elif name in ("pdp", "ale"):
        sc = max(M, np.max(np.abs(ref.ice(model, X, f, np.linspace(L[0, f], L[1, f], 5)))))
    ctx.ev(name)
    ctx.ev("variable_bins", name == "rhale" and ("reedy" in str(desc) or "DP" in str(desc)))
    ctx.case(nontrivial=False, method=name, n=len(X), d=X.shape[1], feature=f, kinds=kk, model=model.name, limits=how, fit=desc, x0=float(X[0, f]))
    return name, X, f, model, lim, jac, effect, kw, xs, cents, sc + 1e-300


def jitter(name, X, model, lim, f, kw, xs, jac, effect, a):
    """Does the choice of bins change when the derivatives move by rounding errors?"""
    if name != "rhale":
        return lambda: False
    E = np.asarray(effect if effect is not None else model.jac(np.asarray(X, dtype=float)), dtype=float)

    def flips():
        r = np.random.default_rng(5)
        for k in range(24):
            eps = 10.0 ** -(15 - k % 4)
            b = Run(name, X, model, lim, f, kw, xs, jac=jac, effect=E * (1 + eps * r.normal(size=E.shape)) + eps * np.abs(E).max() * r.normal(size=E.shape))
            if bool(a.refused) != bool(b.refused) or (not a.refused and not np.array_equal(a.par["limits"], b.par["limits"])):
                return True
        return False
    return flips


def scen_rows(ctx, rng):
    name, X, f, model, lim, jac, effect, kw, xs, cents, sc = base(ctx, rng)
    perm = rng.permutation(len(X))
    kind = rng.random()
    if kind < 0.2:
        perm = np.argsort(X[:, f], kind="stable")
    elif kind < 0.3:
        perm = np.arange(len(X))[::-1]
    a = Run(name, X, model, lim, f, kw, xs, jac=jac, effect=effect, cents=cents)
    b = Run(name, X[perm], model, lim, f, kw, xs, jac=jac, effect=None if effect is None else effect[perm], cents=cents)
    fl = jitter(name, X, model, lim, f, kw, xs, jac, effect, a)
    ok = compare(ctx, "rows", name, a, b, sc, 1e-6 if name == "shap" else 1e-9, flips=fl)
    if a.ice is not None:
        L = gen.full_limits(X, lim)
        keep = gen.in_range(X, L, f)
        pos = np.cumsum(keep) - 1
        idx = pos[perm[keep[perm]]]
        ctx.check(ref.close(b.ice, a.ice[:, idx], 1e-12, sc), "rows-ice", lambda: "the individual curves do not follow the rows: " + ref.worst(b.ice, a.ice[:, idx]))
        ctx.ev("ice_permuted")
    if a.shap is not None:
        i, j = np.lexsort((a.shap[1], a.shap[0])), np.lexsort((b.shap[1], b.shap[0]))
        same = ref.close(np.sort(a.shap[1]), np.sort(b.shap[1]), 1e-9, sc)
        ctx.check(same and np.array_equal(a.shap[0][i], b.shap[0][j]), "rows-shap", "the SHAP values do not follow the rows")
    ctx.ev("rows", bool(ok))


def scen_duplicated(ctx, rng):
    name, X, f, model, lim, jac, effect, kw, xs, cents, sc = base(ctx, rng, fixed=True, shap=False)
    k = int(rng.integers(2, 4))
    rep = np.tile(np.arange(len(X)), k) if rng.random() < 0.5 else np.repeat(np.arange(len(X)), k)
    a = Run(name, X, model, lim, f, kw, xs, jac=jac, effect=effect, cents=cents)
    if a.refused:
        raise Skip("refused")
    b = Run(name, X[rep], model, lim, f, kw, xs, jac=jac, effect=None if effect is None else effect[rep], cents=cents)
    heter = a.par is None or not np.any(a.par["points_per_bin"] == 1)
    ok = compare(ctx, "duplicated", name, a, b, sc, heter=heter)
    ctx.ev("duplicated", bool(ok))
    ctx.ev("duplicated_heterogeneity", heter)


def scen_layout(ctx, rng):
    name, X, f, model, lim, jac, effect, kw, xs, cents, sc = base(ctx, rng, small=rng.random() < 0.6)
    r = rng.random()
    if r < 0.3:
        X = X.astype(np.float32).astype(float)
        effect = None if effect is None else model.jac(X)
    if rng.random() < 0.4:
        xs = np.round(xs)
        if name == "shap":
            xs = np.clip(xs, X[:, f].min(), X[:, f].max())
    if not methods.valid_feature(X, gen.full_limits(X, lim), f):
        raise Skip("degenerate feature")
    if lim is None and rng.random() < 0.3:
        lim = gen.full_limits(X, lim)
    a = Run(name, X, model, lim, f, kw, xs, jac=jac, effect=effect, cents=cents)
    what = []

    def maybe(v, w):
        if v is None or rng.random() < 0.25:
            return v
        what.append(w)
        return represent(ctx, rng, v)
    Xr, lr, er, xr = maybe(X, "data"), maybe(lim, "limits"), maybe(effect, "effects"), maybe(xs, "points")
    b = Run(name, Xr, model, lr, f, kw, xr, jac=jac, effect=er, cents=cents)
    fl = jitter(name, X, model, lim, f, kw, xs, jac, effect, a)
    ok = compare(ctx, "layout", "%s with other %s" % (name, "/".join(what)), a, b, sc, 1e-6 if name == "shap" else 1e-9, flips=fl)
    ctx.ev("layout", bool(ok) and bool(what))
    ctx.case(nontrivial=False, other=what)


def scen_narrow(ctx, rng):
    """Ranges that the narrow integer types only just hold."""
    name, X, f, model, lim, jac, effect, kw, xs, cents, sc = base(ctx, rng, shap=False)
    if name in ("ale", "pdp", "dpdp") and rng.random() < 0.5:
        raise Skip("less of these methods")
    lo, up = X.min(axis=0), X.max(axis=0)
    X = np.round((X - lo) / np.where(up > lo, up - lo, 1) * 180 - 90)
    lim = np.stack([X.min(axis=0), X.max(axis=0)]) + int(rng.integers(0, 9)) * np.array([[-1.0], [1.0]])
    xs = np.round(rng.uniform(lim[0, f], lim[1, f], size=len(xs)))
    effect = None if effect is None else model.jac(X)
    sc = max(sc, 200 * float(np.abs(model(X)).max()), 200 * float(np.abs(model.jac(X)).max()))
    if not methods.valid_feature(X, lim, f):
        raise Skip("degenerate feature")
    t = [np.int8, np.int16, np.float32, np.float16][int(rng.choice(4, p=[.5, .2, .15, .15]))]
    a = Run(name, X, model, lim, f, kw, xs, jac=jac, effect=effect, cents=cents)
    b = Run(name, X.astype(t) if rng.random() < 0.7 else X, model, lim.astype(t), f, kw, xs.astype(t) if rng.random() < 0.7 else xs, jac=jac, effect=effect, cents=cents)
    ok = compare(ctx, "narrow", "%s with %s" % (name, t.__name__), a, b, sc, flips=jitter(name, X, model, lim, f, kw, xs, jac, effect, a))
    ctx.ev("narrow_types", bool(ok))


def scen_columns(ctx, rng):
    name, X, f, model, lim, jac, effect, kw, xs, cents, sc = base(ctx, rng, dmin=2)
    perm = rng.permutation(X.shape[1])
    m2 = Cols(model, perm)
    f2 = int(np.flatnonzero(perm == f)[0])
    a = Run(name, X, model, lim, f, kw, xs, jac=jac, effect=effect, cents=cents)
    b = Run(name, X[:, perm], m2, None if lim is None else lim[:, perm], f2, kw, xs, jac=None if jac is None else m2.jac,
            effect=None if effect is None else effect[:, perm], cents=cents)
    fl = jitter(name, X, model, lim, f, kw, xs, jac, effect, a)
    ok = compare(ctx, "columns", name, a, b, sc, 1e-6 if name == "shap" else 1e-9, flips=fl)
    ctx.ev("columns", bool(ok) and f2 != f)


def scen_spelled(ctx, rng):
    """Defaults and equivalent requests."""
    name, X, f, model, lim, jac, effect, kw, xs, cents, sc = base(ctx, rng)
    nof, l2, e2 = "all", lim, effect
    if lim is None and rng.random() < 0.7:
        l2 = np.stack([X.min(axis=0), X.max(axis=0)])
    if rng.random() < 0.5:
        nof = len(X) + int(rng.integers(0, 50))
    if name == "rhale":
        e2 = model.jac(X) if effect is None else None
    a = Run(name, X, model, lim, f, kw, xs, jac=jac, effect=effect, cents=cents)
    k2 = dict(kw)
    if k2.get("centering") is True or k2.get("centering") == "zero_integral":
        k2["centering"] = "zero_integral" if k2["centering"] is True else True
    import effector as ef
    if k2.get("binning_method") == "fixed":
        k2["binning_method"] = ef.Fixed(20, 0)
    elif k2.get("binning_method") == "greedy":
        k2["binning_method"] = ef.Greedy(100, 0)
    elif k2.get("binning_method") == "dp":
        k2["binning_method"] = ef.DynamicProgramming(20, 0)
    b = Run(name, X, model, l2, f, k2, xs, jac=jac, effect=e2, nof=nof, cents=cents)
    fl = jitter(name, X, model, lim, f, kw, xs, jac, effect, a)
    ok = compare(ctx, "spelled-out", name, a, b, sc, 1e-6 if name == "shap" else 1e-9, flips=fl)
    ctx.ev("spelled_out", bool(ok))


def scen_pointwise(ctx, rng):
    name, X, f, model, lim, jac, effect, kw, xs, cents, sc = base(ctx, rng)
    a = Run(name, X, model, lim, f, kw, xs, jac=jac, effect=effect, cents=cents)
    if a.refused:
        raise Skip("refused")
    if a.par is not None:
        sc = max(sc, float(np.sum(np.abs(a.par["bin_effect"] * a.par["dx"]))))
    fe = a.fe
    for c in cents:
        y, h = a.ans[c]
        perm = rng.permutation(len(xs))
        y2, h2 = fe.eval(f, xs[perm], heterogeneity=True, centering=c)
        ctx.check(ref.close(y2, y[perm], 1e-11, sc) and ref.close(h2, h[perm], 1e-8, max(sc, np.max(h))), "order-of-points",
                  lambda: "%s: %s, %s" % (name, ref.worst(y2, y[perm]), ref.worst(h2, h[perm])))
        for k in rng.permutation(len(xs))[:4]:
            y1, h1 = fe.eval(f, xs[k:k + 1], heterogeneity=True, centering=c)
            ctx.check(ref.close(y1, y[k:k + 1], 1e-11, sc) and ref.close(h1, h[k:k + 1], 1e-8, max(sc, np.max(h))), "pointwise",
                      lambda: "%s at %r alone: %r +- %r, together %r +- %r" % (name, xs[k], y1, h1, y[k], h[k]))
        twice = np.concatenate([xs, xs])
        y3 = fe.eval(f, twice, centering=c)
        ctx.check(ref.close(y3, np.concatenate([y, y]), 1e-11, sc), "repeated-points", lambda: ref.worst(y3, np.concatenate([y, y])))
        ctx.ev("pointwise")
        ctx.case(nontrivial=bool(np.any(h > 1e-6 * sc)))


class Typed:
    """A classifier: the model's sign, or a small integer score, in some numeric type."""

    def __init__(self, model, dtype, at, w):
        self.model, self.dtype, self.at, self.w, self.d, self.smooth = model, dtype, at, w, model.d, False

    def __call__(self, Z):
        y = np.asarray(self.model(Z), dtype=float)
        s = np.clip(np.floor((y - self.at) / self.w) + 4, 0, 8)
        if self.dtype == bool:
            s = np.where(s > 4, 1.0, 0.0)
        return s.astype(self.dtype)


def scen_output(ctx, rng):
    """Models that return integers or booleans."""
    name, X, f, model, lim, jac, effect, kw, xs, cents, sc = base(ctx, rng)
    y = np.asarray(model(X))
    w = max(float(np.std(y)), 1e-3 * float(np.max(np.abs(y))), 1e-300)
    dt = [bool, np.uint8, np.int64, np.int32, np.uint32, np.int8][int(rng.integers(6))]
    cls = Typed(model, dt, float(np.median(y)), w)
    flt = lambda Z: cls(Z).astype(float)
    jac = None
    effect = None
    a = Run(name, X, flt, lim, f, kw, xs, cents=cents)
    b = Run(name, X, cls, lim, f, kw, xs, cents=cents)
    L = gen.full_limits(X, lim)
    s = 8.0
    if name in ("dpdp", "rhale"):
        s = 8e8 * (1.0 if name == "dpdp" else L[1, f] - L[0, f])
    ok = compare(ctx, "output-type", "%s of a model returning %s" % (name, np.dtype(dt)), a, b, s, 1e-6 if name == "shap" else 1e-9,
                 flips=(lambda: False) if name != "rhale" else None)
    ctx.ev("output_type", bool(ok))
    ctx.ev("unsigned_output", np.dtype(dt).kind == "u")
    ctx.ev("bool_output", dt is bool)
    ctx.case(nontrivial=False, output=str(np.dtype(dt)))


def levels(tree):
    out = []
    for lev in range(1, max(n.level for n in tree.nodes) + 1):
        nodes = [n for n in tree.nodes if n.level == lev]
        out.append((nodes[0].data["feature"], float(nodes[0].data["position"]), nodes[0].data["feature_type"],
                    [int(n.data["nof_instances"]) for n in nodes], [float(n.data["heterogeneity"]) for n in nodes],
                    float(sum(n.data["weight"] * n.data["heterogeneity"] for n in nodes))))
    return out


def scen_regional(ctx, rng):
    name = methods.REGIONAL[int(rng.choice(5, p=[.28, .2, .25, .25, .02]))]
    how = "rows"
    if name != "rshap" and rng.random() < 0.25:
        # larger data whose first rows have few values of a feature
        X, kk, f, _ = methods.regional_problem(rng, name, nmin=100, nmax=500, dmax=3)
        n, d = X.shape
        j = int(rng.choice([i for i in range(d) if i != f]))
        X[:, j] = np.sort(np.where(rng.random(n) < rng.uniform(0.2, 0.8), -1.0, rng.uniform(0, 1, n)))
        if rng.random() < 0.3:
            X[:, j] = X[::-1, j]
        model = methods.nested(rng, X, f)
        ctx.ev("few_values_first")
        how = "few values first"
    else:
        X, kk, f, model = methods.regional_problem(rng, name, nmin=12, nmax=60)
    n, d = X.shape
    kw = methods.regional_options(rng, name, d)
    kw.update(heter_small_enough=0.0)
    if name == "rrhale":
        kw["binning_method"] = "fixed"
    jac = model.jac if name in ("rdpdp", "rrhale") else None
    perm = rng.permutation(n)
    t = []
    Z = X[perm]
    if rng.random() < 0.3:
        Z = represent(ctx, rng, Z)
        how += " and layout"
    with methods.silent():
        for A in (X, Z):
            fe = methods.make(name, A, model, jac=jac, nof="all")
            fe.fit(f, **kw)
            t.append(fe.tree_full["feature_%d" % f])
    ctx.check((t[0] is None) == (t[1] is None), "regional-rows", "a tree in one order of the rows only")
    if t[0] is None:
        raise Skip("no tree")
    rt = 1e-5 if name == "rshap" else 1e-7
    h0, h1 = (float(v.nodes[0].data["heterogeneity"]) for v in t)
    M = float(np.max(np.abs(model(X)))) if jac is None else float(np.max(np.abs(model.jac(X)[:, f]))) * (1 if name == "rdpdp" else np.ptp(X[:, f]))
    ctx.check(abs(h0 - h1) <= rt * max(h0, M), "regional-root", lambda: "%s: heterogeneity %r, with permuted rows %r" % (name, h0, h1))
    a, b = levels(t[0]), levels(t[1])
    for u, v in zip(a, b):
        ctx.check(abs(u[5] - v[5]) <= rt * max(u[5], M), "regional-level", lambda: "%s: weighted heterogeneity %r, with permuted rows %r" % (name, u, v))
        if u[:4] != v[:4]:
            ctx.ev("ties")
            break
        ctx.check(ref.close(u[4], v[4], rt, max(M, *u[4])), "regional-nodes", lambda: "%r / %r" % (u, v))
        ctx.ev("regional_levels")
    ctx.ev("regional_rows")
    ctx.case(nontrivial=len(a) > 0, method=name, n=n, d=d, feature=f, kinds=kk, model=model.name, how=how, opts={k: str(v)[:40] for k, v in kw.items()}, x0=float(X[0, f]))


SCENARIOS = [("rows", scen_rows, 3), ("duplicated", scen_duplicated, 2), ("layout", scen_layout, 3), ("columns", scen_columns, 2), ("narrow", scen_narrow, 2),
             ("spelled out", scen_spelled, 2), ("pointwise", scen_pointwise, 2), ("output type", scen_output, 2), ("regional", scen_regional, 3)]
