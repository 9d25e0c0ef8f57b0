"""C23: finite input gives finite effects of the right shape."""
import numpy as np
from rt import gen, ref, methods, figs
from rt.harness import Skip

WARM = methods.warm
RULE = ("degenerate and extreme problems (from 2 instances; ties, spikes, two-valued and nearly constant features; offsets up to 1e12 times the spread; scales from 1e-60 to 1e60; constant and "
        "huge models), all methods, binnings, centerings, points inside and outside of the range; every returned number is inspected; non-trivial: an answer was returned")
CASES = {"quick": 1600, "thorough": 40000}
REQUIRED = ["answers", "heterogeneities", "ice", "refused", "two_instances", "two_valued", "large_offset", "huge_output", "tiny_output", "huge_feature", "tiny_feature", "constant_model",
            "constant_other", "single_points", "regional_answers", "regional_nodes", "h_index", "repid", "figures", "limits_not_data", "pdp", "dpdp", "ale", "rhale", "shap",
            "rpdp", "rdpdp", "rale", "rrhale", "rshap"]
ASSUMPTIONS = ["squares of the outputs and slopes do not overflow", "a refusal is an AssertionError", "neighbouring values of a feature are at least 1e-13 of their magnitude apart"]


class Const(gen.Base):
    name = "constant"

    def __init__(self, d, v):
        super().__init__(d)
        self.v = v

    def f(self, X):
        return np.full(len(X), self.v)

    def g(self, X):
        return np.zeros((len(X), self.d))


def column(rng, n):
    """(values, kind)"""
    k = int(rng.integers(9))
    if k == 0:
        c, name = np.where(rng.random(n) < 0.5, 0.0, 1.0), "two"
    elif k == 1:
        c, name = np.zeros(n), "one-out"
        c[int(rng.integers(n))] = 1.0
    elif k == 2:
        c, name = rng.integers(0, int(rng.integers(2, 6)), n).astype(float), "ties"
    elif k == 3:
        c, name = np.where(rng.random(n) < 0.8, 0.5, rng.random(n)), "spike"
    elif k == 4:
        c, name = rng.random(n) ** 8, "crowded"
    elif k == 5:
        c, name = np.concatenate([rng.random(n - 1), [1e3 * (1 + rng.random())]]), "outlier"
    elif k == 6:
        c, name = np.sort(rng.random(n)), "sorted"
    else:
        c, name = gen.column(rng, n, str(rng.choice(gen.COLS))), "common"
    r = rng.random()
    if r < 0.15:
        c, name = c * 10.0 ** rng.uniform(-60, 60), name + "*"
    elif r < 0.3:
        w = np.ptp(c) or 1.0
        c, name = np.round(c / w * 2.0 ** 12) + 2.0 ** 12 * 10.0 ** rng.uniform(2, 9) * (-1 if rng.random() < 0.3 else 1), name + "+"
        c = np.round(c)
    if rng.random() < 0.2:
        c = -c
    return c, name


def build(ctx, rng, name, nmin=2, nmax=60):
    shap = name.endswith("shap")
    reg = name.startswith("r") and name != "rhale"
    n = gen.pick_n(rng, nmin, 24 if shap else nmax)
    d = int(rng.integers(2 if reg else 1, 4))
    cols = [column(rng, n) for _ in range(d)]
    X = np.stack([c for c, _ in cols], axis=1)
    f = int(rng.integers(d))
    if d > 1 and rng.random() < 0.15:
        X[:, (f + 1) % d] = X[0, (f + 1) % d]
        ctx.ev("constant_other")
    if shap:
        X = np.stack([gen.column(rng, n, str(rng.choice([k for k in gen.COLS if k not in ("offset", "tiny")]))) if "*" in nm or "+" in nm else c for (c, nm) in cols], axis=1)
        X = methods.grid(X)
    lim, how = gen.limits(rng, X, None if rng.random() < 0.5 else "none")
    L = gen.full_limits(X, lim)
    if not methods.valid_feature(X, L, f):
        raise Skip("degenerate feature")
    r = rng.random()
    if r < 0.1:
        model = Const(d, float(rng.normal() * 10.0 ** rng.integers(-20, 20)))
        ctx.ev("constant_model")
    elif reg and not shap and r < 0.5:
        model = methods.nested(rng, X, f)
    else:
        model = gen.model(rng, X, foi=f)
    k = 0.0
    if rng.random() < 0.35 and not shap:
        k = rng.uniform(-60, 60)
        model = gen.Scaled(model, 10.0 ** k, float(rng.normal() * 10.0 ** rng.uniform(-60, 60)) if rng.random() < 0.5 else 0.0)
    ctx.ev("huge_output", k > 20)
    ctx.ev("tiny_output", k < -20)
    m = np.max(np.abs(X[:, f]))
    ctx.ev("huge_feature", m > 1e20)
    ctx.ev("tiny_feature", 0 < m < 1e-20)
    ctx.ev("large_offset", m > 1e6 * np.ptp(X[:, f]))
    ctx.ev("two_instances", n == 2)
    ctx.ev("two_valued", len(np.unique(X[:, f])) == 2)
    ctx.ev("limits_not_data", how != "none")
    return X, [k for _, k in cols], f, model, lim, how, L


def inspect(ctx, y, shape, key, what, sign=False):
    y = np.asarray(y)
    ctx.check(y.shape == shape, key + "-shape", lambda: "%s: shape %r, expected %r" % (what, y.shape, shape))
    ctx.check(y.dtype.kind == "f" and bool(np.all(np.isfinite(y))), key + "-not-finite", lambda: "%s: %r" % (what, y.ravel()[~np.isfinite(y.ravel().astype(float))][:4]))
    if sign:
        ctx.check(bool(np.all(y >= 0)), key + "-negative", lambda: "%s: heterogeneity %r" % (what, y.min()))


def refused(fn, *a, **k):
    """None if the request is refused."""
    try:
        with methods.silent():
            return fn(*a, **k)
    except AssertionError:
        return None


def xs_for(rng, name, X, L, f):
    xs = gen.points(rng, L[0, f], L[1, f], X[:, f], t=int(rng.choice([1, 1, 2, 7, 20])), outside=not name.endswith("shap"))
    return xs


def scen_global(ctx, rng):
    name = methods.GLOBAL[int(rng.choice(5, p=[.2, .2, .24, .26, .1]))]
    X, kk, f, model, lim, how, L = build(ctx, rng, name)
    n, d = X.shape
    jac = model.jac if name in ("dpdp", "rhale") and (rng.random() < 0.8 or not model.smooth) else None
    effect = None
    if name == "rhale" and rng.random() < 0.2:
        effect = rng.normal(size=X.shape) * 10.0 ** rng.uniform(-60, 60)
    fe = methods.make(name, X, model, lim, jac=jac, effect=effect)
    kw, fd = methods.fit_options(rng, name)
    fitted = rng.random() < 0.7
    ok = True
    if fitted:
        try:
            fe.fit(f, **kw)
        except AssertionError:
            ok = False
            ctx.ev("refused")
            ctx.check(name in ("ale", "rhale"), name + "-refused", "fit was refused")
    inside = int(gen.in_range(X, L, f).sum())
    if ok:
        for c in [methods.CENTERINGS[int(i)] for i in rng.permutation(4)[:2]]:
            xs = xs_for(rng, name, X, L, f)
            T = len(xs)
            what = "%s eval, centering %r, %s" % (name, c, fd if fitted else "not fitted")
            r = refused(fe.eval, f, xs, heterogeneity=True, centering=c)
            if r is None:
                ctx.ev("refused")
                ctx.check(name in ("ale", "rhale") and not fitted, name + "-refused", what + " was refused")
                ok = False
                break
            inspect(ctx, r[0], (T,), name + "-mean", what)
            inspect(ctx, r[1], (T,), name + "-heterogeneity", what, True)
            y = fe.eval(f, xs, centering=c)
            inspect(ctx, y, (T,), name + "-mean", what)
            ctx.ev("answers")
            ctx.ev("heterogeneities", T)
            ctx.ev("single_points", T == 1)
            if name in ("pdp", "dpdp"):
                inspect(ctx, fe.eval(f, xs, centering=c, return_all=True), (T, inside), name + "-ice", what)
                ctx.ev("ice", inside)
        if ok and rng.random() < 0.15 and np.max(np.abs(r[0])) < 1e30:
            h = {"ale": True, "rhale": True, "shap": "shap_values", "pdp": "ice", "dpdp": "std"}[name]
            with methods.silent():
                fe.plot(f, heterogeneity=h, centering=c)
            for ax in figs.take()[0]:
                for l in ax["lines"]:
                    ctx.check(bool(np.all(np.isfinite(l["x"])) and np.all(np.isfinite(l["y"]))), name + "-figure", lambda: "a line of the figure is not finite")
                for q in ax["rects"]:
                    ctx.check(bool(np.all(np.isfinite(q))), name + "-figure", lambda: "a bar of the figure is not finite")
            ctx.ev("figures")
    ctx.ev(name)
    ctx.case(nontrivial=ok, method=name, n=n, d=d, feature=f, kinds=kk, model=model.name, limits=how, fit=fd if fitted else None, x0=float(X[0, f]))


def scen_regional(ctx, rng):
    name = methods.REGIONAL[int(rng.choice(5, p=[.24, .22, .24, .24, .06]))]
    X, kk, f, model, lim, how, L = build(ctx, rng, name, nmin=4, nmax=50)
    n, d = X.shape
    jac = model.jac if name in ("rdpdp", "rrhale") and (rng.random() < 0.8 or not model.smooth) else None
    kw = methods.regional_options(rng, name, d)
    kw["min_points_per_subregion"] = int(rng.integers(2, 8))
    fe = methods.make(name, X, model, None, jac=jac)
    with methods.silent():
        fe.fit(f, **kw)
    got = 0
    for tree in (fe.tree_full["feature_%d" % f], fe.tree_pruned["feature_%d" % f]):
        if tree is None:
            continue
        for v in tree.nodes:
            ctx.check(np.isfinite(v.data["heterogeneity"]) and v.data["heterogeneity"] >= 0, name + "-node-heterogeneity", lambda: "node %d: %r" % (v.idx, v.data["heterogeneity"]))
            ctx.check(np.isfinite(v.data["weight"]) and 0 <= v.data["weight"] <= 1, name + "-node-weight", lambda: "node %d: %r" % (v.idx, v.data["weight"]))
            ctx.ev("regional_nodes")
    tree = fe.tree_pruned["feature_%d" % f]
    for v in (tree.nodes if tree is not None else []):
        R = X[methods.path_mask(X, v)]
        if len(R) == 0:
            continue
        LR = gen.full_limits(R, None)
        if not LR[0, f] < LR[1, f]:
            continue
        xs = xs_for(rng, name, R, LR, f)
        c = methods.CENTERINGS[int(rng.integers(4))]
        r = refused(fe.eval, f, v.idx, xs, heterogeneity=True, centering=c)
        if r is None:
            ctx.ev("refused")
            ctx.check(name in ("rale", "rrhale"), name + "-refused", "eval was refused")
            continue
        inspect(ctx, r[0], (len(xs),), name + "-mean", "node %d" % v.idx)
        inspect(ctx, r[1], (len(xs),), name + "-heterogeneity", "node %d" % v.idx, True)
        ctx.ev("regional_answers")
        got += 1
    with methods.silent() as buf:
        fe.show_partitioning(f)
    ctx.check("nan" not in buf.getvalue() and "inf," not in buf.getvalue(), name + "-report", lambda: buf.getvalue())
    ctx.ev(name)
    ctx.case(nontrivial=got > 0, method=name, n=n, d=d, feature=f, kinds=kk, model=model.name, opts={k: str(v)[:30] for k, v in kw.items()}, x0=float(X[0, f]))


def scen_indices(ctx, rng):
    import effector.interaction as inter
    X, kk, f, model, lim, how, L = build(ctx, rng, "rpdp", nmin=2, nmax=16)
    n, d = X.shape
    i, j = [int(q) for q in rng.permutation(d)[:2]]
    with methods.silent():
        if rng.random() < 0.6:
            o = inter.HIndex(X, model, n)
            G = ref.ice(model, X, f, X[:, f]).mean(axis=1)
            y = model(X)
            # with a vanishing denominator there is no H-index
            q = o.eval_one_vs_all(f)
            if np.ptp(y) > 1e-9 * np.max(np.abs(y)):
                ctx.check(np.isfinite(q) and q >= 0, "h-index", lambda: "one against all %r" % q)
                ctx.ev("h_index")
            q = o.eval_pairwise(i, j)
            Z = np.repeat(X[None], n, axis=0)
            Z[:, :, i] = X[:, None, i]
            Z[:, :, j] = X[:, None, j]
            p = model(Z.reshape(-1, d)).reshape(n, n).mean(axis=1)
            if np.ptp(p) > 1e-9 * np.max(np.abs(model(Z.reshape(-1, d)))):
                ctx.check(np.isfinite(q) and q >= 0, "h-index", lambda: "pairwise %r" % q)
                ctx.ev("h_index")
        else:
            q = inter.REPID(X, model, None, n).eval_one_vs_all(f)
            ctx.check(np.isfinite(q) and q >= 0, "repid", lambda: "%r" % q)
            ctx.ev("repid")
    ctx.case(n=n, d=d, feature=f, kinds=kk, model=model.name, x0=float(X[0, f]))


SCENARIOS = [("global", scen_global, 5), ("regional", scen_regional, 3), ("indices", scen_indices, 1)]
