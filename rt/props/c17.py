"""C17: plots draw exactly what evaluation returns, rescaled as asked."""
import numpy as np
from rt import gen, ref, methods, figs
from rt.harness import Skip
from rt.props.c12 import counterpart
from rt.props.c21 import name_of, same_name

WARM = methods.warm
RULE = ("five global and five regional methods, random data, limits, names, centerings, heterogeneity styles, point counts, x / y scalings (none, one, both), "
        "y-ranges and average output; the artists of the figure against the evaluations of an untouched twin (global) or of a global object "
        "on the rows of the region (regional); non-trivial: a curve that varies")
CASES = {"quick": 1300, "thorough": 20000}
REQUIRED = ["curves", "bands_std", "bands_std_err", "ice_curves", "ice_subsets", "shap_points", "shap_subsets", "bars", "error_bars", "avg_lines", "avg_lines_scaled",
            "scaled_x_only", "scaled_y_only", "scaled_both", "y_ranges", "dy_ranges", "labels", "regional_plots", "below_root", "scaled_names", "limits_not_data",
            "pdp", "dpdp", "ale", "rhale", "shap", "rpdp", "rdpdp", "rale", "rrhale", "rshap", "unfitted", "refitted"]
ASSUMPTIONS = ["artists are identified by their legend labels (PDP, ICE, std, average effect, avg output, SHAP curve, ...)",
               "the average-output line of a d-PDP is judged only without y-scaling"]


def scaling(rng):
    if rng.random() < 0.5:
        return None
    r = rng.random()
    if r < 0.15:
        return {"mean": 0.0, "std": float(rng.uniform(0.1, 5))}
    return {"mean": float(rng.normal() * 5), "std": float(10 ** rng.uniform(-2, 2))}


def aff(v, s):
    return v if s is None else v * s["std"] + s["mean"]


def fac(s):
    return 1.0 if s is None else s["std"]


def by_label(ctx, ax, label, what, n=1):
    ls = [l for l in ax["lines"] if l["label"] == label]
    ctx.check(len(ls) == n, what + "-missing", lambda: "%d lines labelled %r among %r" % (len(ls), label, [l["label"] for l in ax["lines"]]))
    return ls[0] if n else None


def eq(ctx, got, want, key, scale, rtol=1e-9):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    ctx.check(got.shape == want.shape and ref.close(got, want, rtol, scale), key, lambda: "%r / %s" % (want.shape, ref.worst(got, want) if got.shape == want.shape else got.shape))


def band(ctx, poly, x, lo, hi, key, scale):
    """The filled area between lo and hi above every x."""
    ctx.check(len(poly["verts"]) == 1, key, "the band is split")
    v = poly["verts"][0]
    sx = np.max(np.abs(x))
    gaps = np.diff(np.sort(x))
    tol = max(min(1e-9 * sx, gaps.min() / 3 if len(gaps) else np.inf), 4e-16 * sx)     # a narrow axis may be finer than 1e-9
    g, h, wl, wh = (np.full(len(x), np.nan) for _ in range(4))
    for i, t in enumerate(x):
        at, same = np.abs(v[:, 0] - t) <= tol, np.abs(x - t) <= tol
        wl[i], wh[i] = np.min(lo[same]), np.max(hi[same])
        if at.any():
            g[i], h[i] = v[at, 1].min(), v[at, 1].max()
    eq(ctx, g, wl, key, scale)
    eq(ctx, h, wh, key, scale)
    ctx.check(v[:, 0].min() >= x.min() - 1e-9 * sx and v[:, 0].max() <= x.max() + 1e-9 * sx, key, "the band is wider than the axis")


class Want:
    """What the figure of a global method has to show; `new` makes an untouched, fitted twin."""

    def __init__(self, ctx, name, twin, f, L, sx, sy, xlabel, ylabel, avg, opts, X):
        self.__dict__.update(locals())

    def head(self, fig, n):
        ctx = self.ctx
        ctx.check(len(fig) == 1 and len(fig[0]) == n, "axes", lambda: "%d figures with %r axes" % (len(fig), [len(a) for a in fig]))
        top, bottom = fig[0][0], fig[0][-1]
        ctx.check(bottom["xlabel"] == self.xlabel if isinstance(self.xlabel, str) else self.xlabel(bottom["xlabel"]), "xlabel",
                  lambda: "x label %r, expected %r" % (bottom["xlabel"], self.xlabel))
        ctx.check(top["ylabel"] == self.ylabel, "ylabel", lambda: "y label %r, expected %r" % (top["ylabel"], self.ylabel))
        ctx.ev("labels")
        yl = self.opts.get("y_limits")
        if yl is not None:
            ctx.check(tuple(top["ylim"]) == tuple(yl), "y-range", lambda: "%r, asked for %r" % (top["ylim"], yl))
            ctx.ev("y_ranges")
        dl = self.opts.get("dy_limits")
        if dl is not None:
            ctx.check(tuple(bottom["ylim"]) == tuple(dl), "dy-range", lambda: "%r, asked for %r" % (bottom["ylim"], dl))
            ctx.ev("dy_ranges")
        if self.opts.get("show_avg_output"):
            l = by_label(ctx, top, "avg output", "avg-output")
            if self.name != "dpdp" or self.sy is None:
                want = aff(self.avg, self.sy)
                ctx.check(np.allclose(l["y"], want, rtol=1e-9, atol=1e-12 * self.avg_scale), "avg-output", lambda: "line at %r, the average is %r" % (l["y"], want))
                ctx.ev("avg_lines")
                ctx.ev("avg_lines_scaled", self.sy is not None)
        else:
            by_label(ctx, top, "avg output", "avg-output-unasked", 0)
        return top, bottom

    def check(self, fig):
        kind = self.name
        if kind in ("ale", "rhale"):
            self.ale(fig)
        elif kind == "shap":
            self.shap(fig)
        else:
            self.pdp(fig)

    def axis(self, m):
        return np.linspace(self.L[0, self.f], self.L[1, self.f], m)

    def curve(self, ax, label, y_of):
        """The line is at its own abscissae what evaluation gives there, and spans the axis."""
        ctx = self.ctx
        l = by_label(ctx, ax, label, "curve")
        m = len(l["x"])
        x = self.axis(m)
        eq(ctx, l["x"], aff(x, self.sx), "curve-x", np.max(np.abs(aff(x, self.sx))))
        y, scale = y_of(x)
        eq(ctx, l["y"], y, "curve-y", scale)
        self.ctx.ev("curves")
        self.ctx.case(nontrivial=np.ptp(y) > 0)
        return x, y, l, scale

    def heter(self):
        h = self.opts.get("heterogeneity", False)
        return "std" if h is True else h

    def pdp(self, fig):
        ctx, o, c = self.ctx, self.opts, self.opts.get("centering", False)
        top, _ = self.head(fig, 1)
        der = self.name == "dpdp"
        fy = fac(self.sy) / fac(self.sx) if der else fac(self.sy)
        tag = "d-" if der else ""
        ctx.check(top["title"] == tag + "PDP", "title", top["title"])
        got = {}

        def y_of(x):
            I = self.twin.eval(self.f, x, centering=c, return_all=True)
            S = I * fy if der else aff(I, self.sy)
            got.update(S=S, sd=I.std(axis=1) * fy)
            off = abs(self.sy["mean"]) if self.sy and not der else 0.0
            U = np.max(np.abs(self.twin.eval(self.f, x, return_all=True))) if c is not False else 0.0
            return S.mean(axis=1), (np.max(np.abs(I)) + U) * fy + off
        x, y, l, scale = self.curve(top, tag + "PDP", y_of)
        if "nof_points" in o:
            ctx.check(len(x) == o["nof_points"], "nof-points", "%d points" % len(x))
        h = self.heter()
        labels = [p["label"] for p in top["polys"]]
        if h in ("std", "std_err"):
            ps = [p for p in top["polys"] if p["label"] == h]
            ctx.check(len(ps) == 1, "band-missing", lambda: "bands %r" % labels)
            w = got["sd"] / (np.sqrt(got["S"].shape[1]) if h == "std_err" else 1.0)
            band(ctx, ps[0], aff(x, self.sx), y - w, y + w, "band-" + h, scale)
            ctx.ev("bands_" + h)
        ctx.check(len(top["polys"]) == (h in ("std", "std_err")), "band-unasked", lambda: "bands %r for heterogeneity %r" % (labels, h))
        ice = [k for k in top["lines"] if k is not l and k["label"] != "avg output" and k["data"]]
        ice = [k for k in ice if k["style"][2] != l["style"][2] or k["label"] == tag + "ICE"]
        if h == "ice":
            S = got["S"]
            k = o.get("nof_ice", "all")
            k = S.shape[1] if k == "all" else min(k, S.shape[1])
            ctx.check(len(ice) in (k, k + 1), "ice-number", lambda: "%d individual curves, asked for %r of %d" % (len(ice), o.get("nof_ice"), S.shape[1]))
            by_label(ctx, top, tag + "ICE", "ice")
            drawn = [q["y"] for q in ice if q["label"] != tag + "ICE"] if len(ice) == k + 1 else [q["y"] for q in ice]
            left = list(range(S.shape[1]))
            for q in drawn:
                d = [np.max(np.abs(q - S[:, j])) for j in left]
                b = int(np.argmin(d)) if left else -1
                ctx.check(left and d[b] <= 1e-9 * scale, "ice-curve", lambda: "an individual curve that no instance has (distance %r)" % (min(d) if d else None))
                left.pop(b)
            ctx.check(any(np.max(np.abs([q for q in ice if q["label"] == tag + "ICE"][0]["y"] - S[:, j])) <= 1e-9 * scale for j in range(S.shape[1])), "ice-curve", "labelled curve")
            for q in ice:
                eq(ctx, q["x"], aff(x, self.sx), "ice-x", np.max(np.abs(aff(x, self.sx))))
            ctx.ev("ice_curves", len(drawn))
            ctx.ev("ice_subsets", k < S.shape[1])
        else:
            ctx.check(not ice, "ice-unasked", lambda: "%d curves besides the mean" % len(ice))

    def shap(self, fig):
        ctx, o, c = self.ctx, self.opts, self.opts.get("centering", False)
        top, _ = self.head(fig, 1)
        fy, off = fac(self.sy), abs(self.sy["mean"]) if self.sy else 0.0
        got = {}

        def y_of(x):
            y, sd = self.twin.eval(self.f, x, heterogeneity=True, centering=c)
            u = self.twin.eval(self.f, x)
            got.update(sd=sd * fy, shift=(y - u)[0])
            return aff(y, self.sy), (np.max(np.abs(u)) + np.max(np.abs(y))) * fy + off
        x, y, l, scale = self.curve(top, "SHAP curve", y_of)
        h = self.heter()
        if h == "std":
            ps = [p for p in top["polys"] if p["label"] == "std"]
            ctx.check(len(ps) == 1, "band-missing", "no band")
            band(ctx, ps[0], aff(x, self.sx), y - got["sd"], y + got["sd"], "band-std", scale)
            ctx.ev("bands_std")
        ctx.check(len(top["polys"]) == (h == "std"), "band-unasked", lambda: "bands for heterogeneity %r" % (h,))
        pts = [k for k in top["lines"] if k["style"][1] == "x"]
        if h == "shap_values":
            by_label(ctx, top, "SHAP values", "shap-values")
            k = o.get("nof_shap_values", "all")
            par = self.twin.feature_effect["feature_%d" % self.f]
            xx, yy = aff(par["xx"], self.sx), aff(par["yy"] + got["shift"], self.sy)
            k = len(xx) if k == "all" else min(k, len(xx))
            a = np.concatenate([np.stack([q["x"], q["y"]], 1) for q in pts if q["label"] != "SHAP values"] or [np.zeros((0, 2))])
            first = [q for q in pts if q["label"] == "SHAP values"][0]
            if len(a) == 0:
                a = np.stack([first["x"], first["y"]], 1)
            ctx.check(len(a) == k, "shap-number", lambda: "%d points drawn, asked for %d" % (len(a), k))
            s2 = scale + np.max(np.abs(yy))
            left = list(range(len(xx)))
            for p in a:
                d = [abs(p[0] - xx[j]) / (np.max(np.abs(xx)) + 1e-300) + abs(p[1] - yy[j]) / s2 for j in left]
                b = int(np.argmin(d)) if left else -1
                ctx.check(left and d[b] <= 1e-9, "shap-point", lambda: "a point at %r that no instance has" % (p,))
                left.pop(b)
            ctx.ev("shap_points", len(a))
            ctx.ev("shap_subsets", k < len(xx))
        else:
            ctx.check(not pts, "shap-values-unasked", "points drawn")

    def ale(self, fig):
        ctx, o, c = self.ctx, self.opts, self.opts.get("centering", False)
        top, bot = self.head(fig, 2)
        ctx.check(bot["ylabel"] == "dy/dx", "dy-label", bot["ylabel"])
        ctx.check(self.name in top["title"].lower() and ("rh" in top["title"].lower()) == (self.name == "rhale"), "title", top["title"])
        self.twin.eval(self.f, self.L[:1, self.f], centering=c)
        par = self.twin.feature_effect["feature_%d" % self.f]
        lim = np.asarray(par["limits"], dtype=float)
        eff, var, dx = (np.asarray(par[k], dtype=float) for k in ("bin_effect", "bin_variance", "dx"))
        off = abs(self.sy["mean"]) if self.sy else 0.0

        def axis(m):
            return np.linspace(lim[0], lim[-1], m)
        self.axis = axis

        def y_of(x):
            y = self.twin.eval(self.f, x, centering=c)
            return aff(y, self.sy), (np.max(np.abs(y)) + np.sum(np.abs(eff * dx))) * fac(self.sy) + off
        self.curve(top, "average effect", y_of)
        r = fac(self.sy) / fac(self.sx)
        k = len(eff)
        rects = sorted(bot["rects"], key=lambda q: q[0])
        ctx.check(len(rects) == k, "bars-number", lambda: "%d bars for %d bins" % (len(rects), k))
        R = np.array(rects)
        sl = aff(lim, self.sx)
        eq(ctx, R[:, 0], sl[:-1], "bars-left", np.max(np.abs(sl)))
        eq(ctx, R[:, 0] + R[:, 2], sl[1:], "bars-right", np.max(np.abs(sl)))
        eq(ctx, R[:, 1] + R[:, 3], eff * r, "bars-height", np.max(np.abs(eff)) * r)
        eq(ctx, R[:, 1], np.zeros(k), "bars-base", 1e-300)
        ctx.ev("bars", k)
        segs = [s for col in bot["segments"] for s in col]
        if self.opts.get("heterogeneity", False):
            segs = sorted(segs, key=lambda s: s[0, 0])
            ctx.check(len(segs) == k, "error-bars-number", lambda: "%d error bars for %d bins" % (len(segs), k))
            S = np.array(segs)
            sd = np.sqrt(var) * r
            cen = 0.5 * (sl[1:] + sl[:-1])
            eq(ctx, S[:, 0, 0], cen, "error-bars-x", np.max(np.abs(sl)))
            eq(ctx, S[:, 1, 0], cen, "error-bars-x", np.max(np.abs(sl)))
            s = (np.max(np.abs(eff)) + np.max(sd / r)) * r
            eq(ctx, S[:, :, 1].min(axis=1), eff * r - sd, "error-bars-low", s)
            eq(ctx, S[:, :, 1].max(axis=1), eff * r + sd, "error-bars-high", s)
            ctx.ev("error_bars", int(np.sum(sd > 0)))
        else:
            ctx.check(not segs, "error-bars-unasked", "%d segments" % len(segs))


def zero_bound(rng, lim):
    """Now and then limits that begin or end exactly at zero."""
    if rng.random() < 0.4:
        w = lim[1] - lim[0]
        return [0, w] if rng.random() < 0.5 else [-w, 0.0]
    return lim


def plot_options(rng, kind, regional, n=40):
    """Options of plot for this method (base kind)."""
    o = {}
    r = rng.random()
    if kind in ("pdp", "dpdp"):
        hs = [False, True, "std", "std_err", "ice", "ice"]
    elif kind == "shap":
        hs = [False, True, "std", "shap_values", "shap_values"]
    else:
        hs = [False, True, True, "std"]
    o["heterogeneity"] = hs[int(rng.integers(len(hs)))]
    if rng.random() < 0.6:
        o["centering"] = methods.CENTERINGS[int(rng.integers(4))]
    if rng.random() < 0.3:
        a = float(rng.normal() * 10)
        o["y_limits"] = zero_bound(rng, [a, a + float(10 ** rng.uniform(-1, 2))])
    if kind in ("ale", "rhale") and rng.random() < 0.3:
        a = float(rng.normal() * 10)
        o["dy_limits"] = tuple(zero_bound(rng, [a, a + float(10 ** rng.uniform(-1, 2))]))
    if regional:
        return o
    if kind in ("pdp", "dpdp", "shap") and rng.random() < 0.5:
        o["nof_points"] = int(rng.integers(2, 60))
    if kind in ("pdp", "dpdp"):
        if rng.random() < (0.7 if o["heterogeneity"] == "ice" else 0.2):
            o["nof_ice"] = int(rng.integers(1, n + 5))
        if rng.random() < 0.3:
            o["use_vectorized"] = bool(rng.random() < 0.5)
    if kind == "shap" and rng.random() < 0.6:
        o["nof_shap_values"] = int(rng.integers(1, n + 5))
    if rng.random() < 0.4:
        o["show_avg_output"] = True
    return o


def scen_global(ctx, rng):
    name = methods.GLOBAL[int(rng.choice(5, p=[.24, .2, .24, .2, .12]))]
    X, kk, f, model, lim, how, L = methods.problem(rng, name, nmax=80)
    jac = model.jac if name in ("dpdp", "rhale") else None
    d = X.shape[1]
    names = gen.names(rng, d, ["col%d" % j for j in rng.permutation(d)]) if rng.random() < 0.6 else None
    target = str(rng.choice(["price", "price", ""])) if rng.random() < 0.5 else None
    avg = (0.0 if rng.random() < 0.3 else float(rng.normal() * 5)) if rng.random() < 0.35 else None
    new = lambda: methods.make(name, X, model, lim, jac=jac, names=names, target=target, avg=avg)
    sx, sy = scaling(rng), scaling(rng)
    o = plot_options(rng, name, False, len(X))
    fe, twin = new(), new()
    fit = None
    with methods.refusals_skip():
        if rng.random() < 0.6:
            fit, fd = methods.fit_options(rng, name)
            fe.fit(f, **fit)
            twin.fit(f, **fit)
            if rng.random() < 0.4:       # something else in between
                fe.eval(f, gen.points(rng, L[0, f], L[1, f], t=2), centering=methods.CENTERINGS[int(rng.integers(4))])
                ctx.ev("refitted")
        else:
            ctx.ev("unfitted")
        with methods.silent():
            fe.plot(f, scale_x=sx, scale_y=sy, **o)
    fig = figs.take()
    xlabel = names[f] if names else "x_%d" % f
    ylabel = "dy/dx" if name == "dpdp" else ("y" if target is None else target)
    want = Want(ctx, name, twin, f, L, sx, sy, xlabel, ylabel, avg if avg is not None else float(np.mean(model(X))), o, X)
    want.avg_scale = float(np.max(np.abs(model(X)))) * fac(sy) + (abs(sy["mean"]) if sy else 0)
    want.check(fig)
    ctx.ev(name)
    ctx.ev("limits_not_data", how != "none")
    ctx.ev("scaled_both" if sx and sy else "scaled_x_only" if sx else "scaled_y_only" if sy else "unscaled")
    ctx.case(nontrivial=False, method=name, n=len(X), d=d, feature=f, kind=kk[f], model=model.name, limits=how, fit=str(fit)[:120], plot=o, sx=sx, sy=sy, names=names, x0=float(X[0, f]))


def scen_regional(ctx, rng):
    name = methods.REGIONAL[int(rng.choice(5, p=[.24, .2, .24, .24, .08]))]
    X, kk, f, model = methods.regional_problem(rng, name, nmin=12)
    n, d = X.shape
    jac = model.jac if name in ("rdpdp", "rrhale") else None
    kw = methods.regional_options(rng, name, d)
    kw.update(heter_small_enough=0.0, split_categorical_features=True, heter_pcg_drop_thres=0.0)
    names = gen.names(rng, d, ["col%d" % j for j in rng.permutation(d)]) if rng.random() < 0.6 else None
    target = str(rng.choice(["price", "price", ""])) if rng.random() < 0.5 else None
    with methods.silent():
        fe = methods.make(name, X, model, jac=jac, names=names, target=target)
        fe.fit(f, **kw)
    tree = fe.tree_pruned["feature_%d" % f]
    if tree is None:
        raise Skip("not split at all")
    base = name[1:]
    nm = names or ["x_%d" % j for j in range(d)]
    for node in [tree.nodes[int(i)] for i in rng.permutation(len(tree.nodes))[:3]]:
        R = X[methods.path_mask(X, node)]
        o = plot_options(rng, base, True)
        scales = None if rng.random() < 0.5 else [scaling(rng) or {"mean": 0.0, "std": 1.0} for _ in range(d)]
        sy = scaling(rng)
        c = o.get("centering", False)
        try:
            twin, fit = counterpart(name, kw, R, jac(R) if jac is not None and name == "rrhale" else None, model, jac, f)
            twin.fit(f, centering=c, **fit)
            twin.eval(f, np.array([R[:, f].min()]), heterogeneity=True, centering=c)
        except AssertionError as e:
            twin = e
        try:
            with methods.silent():
                fe.plot(f, node.idx, scale_x_list=scales, scale_y=sy, **o)
        except AssertionError as e:
            figs.take()
            ctx.check(isinstance(twin, Exception), "refusal", lambda: "plot of node %d: %r" % (node.idx, e))
            continue
        fig = figs.take()
        ctx.check(not isinstance(twin, Exception), "refusal", lambda: "node %d was plotted, a global object says %r" % (node.idx, twin))
        L = np.stack([R.min(axis=0), R.max(axis=0)])
        sx = scales[f] if scales is not None else None
        xl = name_of(node, nm, scales, f)
        want = Want(ctx, base, twin, f, L, sx, sy, lambda t: same_name(t, xl), "dy/dx" if base == "dpdp" else ("y" if target is None else target), None, o, R)
        want.check(fig)
        ctx.ev("regional_plots")
        ctx.ev("below_root", node.level > 0)
        ctx.ev("scaled_names", scales is not None and node.level > 0)
        ctx.ev("scaled_both" if sx and sy else "scaled_x_only" if sx else "scaled_y_only" if sy else "unscaled")
    ctx.ev(name)
    ctx.case(nontrivial=False, method=name, n=n, d=d, feature=f, kinds=kk, model=model.name, opts={k: str(v)[:40] for k, v in kw.items()}, names=names, nodes=len(tree.nodes), x0=float(X[0, f]))


SCENARIOS = [("global", scen_global, 2), ("regional", scen_regional, 1)]
