"""C08: what an object answers does not depend on the calls before, but on the last explicit fit and the request."""
import numpy as np
from rt import gen, ref, methods, figs
from rt.harness import Skip

WARM = methods.warm
RULE = ("random call sequences of 6..16 operations (fits with options, evals, plots with scaling, reports, rejected calls, over "
        "several features) on one object of each kind; every answer is compared with that of a fresh object given only the "
        "last explicit fit; non-trivial: at least 3 answers after 2 or more state-changing calls")
CASES = {"quick": 520, "thorough": 10000}
REQUIRED = ["similar_points", "answers_compared", "fits", "evals", "plots", "rejected_calls", "regional_answers", "reports_compared",
            "scaled_plots", "index_answers", "implicit_fits", "refits_by_centering", "trees_compared", "arrays_reused", "confusable_features", "fitted_as_asked", "index_plots_compared", "ranged_plots"]
ASSUMPTIONS = ["all instances are used (nof_instances='all'), so no answer is random"]


def outcome(fn):
    """('value', v) or ('raise', type, message)."""
    try:
        return ("value", fn())
    except (AssertionError, IndexError, KeyError, ValueError, TypeError, NotImplementedError) as e:
        return ("raise", type(e).__name__, str(e)[:200])


def agree(ctx, got, want, key, what):
    ctx.ev("answers_compared")
    ctx.check(got[0] == want[0], key, lambda: "%s: %r after the history, %r on a fresh object" % (what, got[:3], want[:3]))
    if got[0] == "raise":
        ctx.check(got[1] == want[1], key, lambda: "%s: raised %r after the history, %r on a fresh object" % (what, got[1:], want[1:]))
        return
    a, b = got[1], want[1]
    if isinstance(a, str) or a is None:
        ctx.check(a == b, key, lambda: "%s: %r after the history, %r on a fresh object" % (what, a, b))
        return
    if isinstance(a, list):
        m = figs.same(a, b, atol=25 * getattr(ctx, "atol", 0.0))      # figures may be rescaled
        ctx.check(m is None, key, lambda: "%s differs from a fresh object's: %s" % (what, m))
        return
    a, b = (a, b) if isinstance(a, tuple) else ((a,), (b,))
    for u, v in zip(a, b):
        ctx.check(ref.close(u, v, 1e-9, atol=getattr(ctx, "atol", 0.0)), key, lambda: "%s differs from a fresh object's: %s" % (what, ref.worst(u, v)))


def spoil(r):
    """The caller overwrites what it was given."""
    if r[0] == "value":
        for a in r[1] if isinstance(r[1], tuple) else (r[1],):
            if isinstance(a, np.ndarray) and a.flags.writeable:
                a[...] = 1e33


def scale(rng):
    return {"mean": float(rng.normal() * 5), "std": float(rng.uniform(0.2, 5))}


def reject(ctx, rng, fe, name, f, xs):
    """A call that must be refused (that it is, is checked by C22)."""
    k = int(rng.integers(5))
    import effector as ef
    d = len(fe.is_fitted)
    calls = [lambda: fe.eval(f, xs, centering="zero_mean"),
             lambda: fe.fit(d + 3),
             lambda: fe.fit(f, binning_method="quantile") if name in ("ale", "rhale") else fe.fit(f, centering="bad"),
             lambda: fe.fit(f, binning_method=ef.Fixed(3, 10 ** 6, 1)) if name in ("ale", "rhale") else fe.fit(f, centering=0.5),
             lambda: fe.fit([1.5, f])]
    r = outcome(calls[k])
    figs.take()
    ctx.ev("rejected_calls", r[0] == "raise")
    return r[0] == "raise", k


def plot_request(rng, name):
    kw = {"centering": methods.CENTERINGS[int(rng.integers(4))]}
    if rng.random() < 0.5:
        kw["scale_x"] = scale(rng)
    if rng.random() < 0.4:
        kw["scale_y"] = scale(rng)
    kw["heterogeneity"] = {"ale": [False, True], "rhale": [False, True], "shap": [False, "std", "shap_values"],
                           "pdp": [False, "std", "std_err", "ice"], "dpdp": [False, "std", "std_err", "ice"]}[name][
        int(rng.integers(2 if name in ("ale", "rhale") else 3))]
    if rng.random() < 0.3:
        kw["show_avg_output"] = True
    kw.update(drawn_range(rng, name))
    if name not in ("ale", "rhale") and rng.random() < 0.2:
        kw["nof_points"] = int(rng.integers(2, 12))
    return kw


def drawn_range(rng, name):
    kw = {}
    if rng.random() < 0.2:
        kw["y_limits"] = [-float(rng.uniform(0, 9)), float(rng.uniform(0, 9))]
    if name.endswith("ale") and rng.random() < 0.3:
        kw["dy_limits"] = [-float(rng.uniform(0, 9)), float(rng.uniform(0, 9))]
    return kw


def similar(ctx, rng, asked, xs):
    """Evaluation points that have much in common with points asked for before."""
    if not asked or rng.random() > 0.45:
        return xs
    old = asked[int(rng.integers(len(asked)))]
    k, t = int(rng.integers(5)), len(old)
    ctx.ev("similar_points")
    if k == 0:
        return old.copy()
    if k == 1:
        return rng.permutation(old)
    if k == 2:
        return np.sort(old)[::-1].copy()
    out = old.copy()
    if t >= 3 and k == 3:       # same length, first and last point
        out[1:-1] = np.resize(xs, t - 2)
    else:                       # one point differs
        out[int(rng.integers(t))] = xs[0]
    return out


def draw(fe, f, kw):
    with methods.silent():
        fe.plot(f, **kw)
    return figs.take()


def scen_global(ctx, rng):
    name = methods.GLOBAL[int(rng.choice(5, p=[.25, .2, .25, .25, .05]))]
    X, kk, f0, model, lim, how, L = methods.problem(rng, name, nmax=60, dmin=1, wide_p=0.12)
    d = X.shape[1]
    ok = methods.confusable(rng, [j for j in range(d) if methods.valid_feature(X, L, j)])
    ctx.ev("confusable_features", len(ok) > 1 and set(ok) <= {0, 1, 10, 11, 12} and max(ok) > 9)
    jac = model.jac if name in ("dpdp", "rhale") else None
    effect = model.jac(X) if name == "rhale" and rng.random() < 0.5 else None
    new = lambda: methods.make(name, X, model, lim, jac=jac, effect=effect)
    ctx.atol = 1e-12 * float(np.abs(model(X)).max())
    if name.endswith("dpdp"):
        ctx.atol = max(ctx.atol, 1e-11 * float(np.abs(model.jac(X)).max()))
    fe, last, ops, answers, changed = new(), {}, [], 0, 0
    seen_c, buffers, asked = {}, {}, {}
    for _ in range(int(rng.integers(6, 17))):
        r = rng.random()
        f = int(rng.choice(ok))
        xs = similar(ctx, rng, asked.setdefault(f, []), gen.points(rng, L[0, f], L[1, f], X[:, f], t=int(rng.integers(1, 8))))

        def fresh(centering=None):
            o = new()
            if f in last:
                try:
                    o.fit(f, **dict(last[f], **({"centering": centering} if centering else {})))
                except AssertionError:
                    pass
            return o
        if r < 0.25:
            many = rng.random() < 0.2 and len(ok) == d
            kw, fd = methods.fit_options(rng, name)
            got = outcome(lambda: fe.fit("all" if many else f, **kw))
            if many and got[0] == "raise":
                raise Skip("infeasible for some feature")
            if got[0] == "value":
                for j in (range(d) if many else [f]):
                    last[j] = kw
                    seen_c[j] = kw["centering"]
            ctx.ev("fits")
            changed += 1
            ops.append("fit %s %s" % ("all" if many else f, fd))
        elif r < 0.35:
            refused, k = reject(ctx, rng, fe, name, f, xs)
            ops.append("reject %d" % k)
            if not refused:
                raise Skip("call accepted")
            changed += 1
        elif r < 0.5 and name != "shap" or r < 0.4:
            kw = plot_request(rng, name)
            got, want = outcome(lambda: draw(fe, f, kw)), outcome(lambda: draw(fresh(), f, kw))
            figs.take()
            agree(ctx, got, want, name + "-plot-history", "plot %r after %s" % (kw, ops))
            ctx.ev("plots")
            ctx.ev("scaled_plots", "scale_x" in kw or "scale_y" in kw)
            ops.append("plot %d" % f)
            answers += 1
            changed += 1
        else:
            kw = {"centering": methods.CENTERINGS[int(rng.integers(4))], "heterogeneity": bool(rng.random() < 0.5)}
            if name in ("pdp", "dpdp"):
                kw["use_vectorized"] = bool(rng.random() < 0.6)
                if rng.random() < 0.2:
                    kw["return_all"] = True
            if buffers and rng.random() < 0.5:
                # the caller fills an array handed over before with new points
                buf = buffers[f] if f in buffers and rng.random() < 0.7 else list(buffers.values())[int(rng.integers(len(buffers)))]
                buf[:] = np.resize(xs, len(buf))
                ctx.ev("arrays_reused")
            else:
                buf = xs.copy()
            xs, buffers[f] = buf.copy(), buf
            asked[f].append(xs)
            # the other options of the last fit hold for whatever centering is asked for
            direct = kw["centering"] if f in last and rng.random() < 0.5 else None
            ctx.ev("fitted_as_asked", direct and direct != last[f]["centering"])
            got, want = outcome(lambda: fe.eval(f, buf, **kw)), outcome(lambda: fresh(direct).eval(f, xs, **kw))
            agree(ctx, got, want, name + "-eval-history", "eval(%d, %r) after %s" % (f, kw, ops))
            spoil(got)
            ctx.ev("evals")
            ctx.ev("implicit_fits", f not in last)
            ctx.ev("refits_by_centering", f in seen_c and kw["centering"] is not False and kw["centering"] != seen_c[f])
            ops.append("eval %d %s" % (f, kw["centering"]))
            answers += 1
    ctx.case(nontrivial=answers >= 3 and changed >= 2, method=name, n=len(X), d=d, model=model.name, limits=how, ops=ops, x0=float(X[0, 0]))


def tree_text(fe, f):
    out = []
    for tree in (fe.tree_full["feature_%d" % f], fe.tree_pruned["feature_%d" % f]):
        if tree is None:
            out.append("none")
        else:
            out.append([(n.idx, n.name, n.level, n.nof_instances, round(float(n.weight), 9), "%.9g" % n.heterogeneity) for n in tree.nodes])
    return repr(out)


def scen_regional(ctx, rng):
    name = methods.REGIONAL[int(rng.choice(5, p=[.28, .2, .25, .22, .05]))]
    X, kk, f0, model, lim, how, L = methods.problem(rng, name, nmax=70, dmin=2, dmax=3, how="none", nmin=12, wide_p=0.1)
    d = X.shape[1]
    ok = methods.confusable(rng, [j for j in range(d) if methods.valid_feature(X, L, j)])
    ctx.ev("confusable_features", len(ok) > 1 and set(ok) <= {0, 1, 10, 11, 12} and max(ok) > 9)
    asked = {}
    if len(ok) < 2:
        raise Skip("degenerate")
    if rng.random() < 0.6:
        g = int(rng.choice([j for j in range(d) if j != f0]))
        cat = len(np.unique(X[:, g])) < 8
        model = gen.gated(rng, X, f0, g, cut=None if cat else float(np.median(X[:, g])), cat=float(X[0, g]) if cat else None)
    jac = model.jac if name in ("rdpdp", "rrhale") else None
    new = lambda: methods.make(name, X, model, jac=jac)
    ctx.atol = 1e-12 * float(np.abs(model(X)).max())
    if name.endswith("dpdp"):
        ctx.atol = max(ctx.atol, 1e-11 * float(np.abs(model.jac(X)).max()))
    with methods.silent():
        fe = new()
    last, trees, ops, answers, changed, twin = {}, {}, [], 0, 0, {}
    fast = {"nof_candidate_splits_for_numerical": 3, "split_categorical_features": True, "heter_small_enough": 0.0, "min_points_per_subregion": 5}

    def fresh(f):
        """A fresh object that has only seen the last fit of f (kept while that fit is unchanged, for reports only)."""
        with methods.silent():
            o = new()
            o.fit(f, **last[f])
        return o
    for _ in range(int(rng.integers(6, 13))):
        r = rng.random()
        f = int(rng.choice(ok if rng.random() < 0.5 else [f0]))
        if f not in last or r < 0.15:
            kw = dict(fast)
            if rng.random() < 0.6:
                kw.update(methods.regional_options(rng, name, d))
                kw["nof_candidate_splits_for_numerical"] = min(4, kw["nof_candidate_splits_for_numerical"])
            with methods.silent():
                got = outcome(lambda: fe.fit(f, **kw))
            ctx.check(got[0] == "value", name + "-fit-history", lambda: "fit(%d, %r) raised %r after %s" % (f, kw, got[1:], ops))
            last[f] = kw
            with methods.silent():
                trees[f] = fresh(f)
            ctx.check(tree_text(fe, f) == tree_text(trees[f], f), name + "-tree-history",
                      lambda: "the trees differ from a fresh object's after %s: %s vs %s" % (ops, tree_text(fe, f), tree_text(trees[f], f)))
            ctx.ev("trees_compared")
            ctx.ev("fits")
            changed += 1
            ops.append("fit %d" % f)
            continue
        tree = trees[f].tree_pruned["feature_%d" % f]
        nodes = [n.idx for n in tree.nodes] if tree is not None else [0]
        node = int(rng.choice(nodes))
        cen = methods.CENTERINGS[int(rng.integers(4))]
        xs = similar(ctx, rng, asked.setdefault(f, []), gen.points(rng, L[0, f], L[1, f], X[:, f], t=int(rng.integers(1, 6))))
        sl = [scale(rng) for _ in range(d)]
        if r < 0.3:
            k = int(rng.integers(3))
            bad = [lambda: fe.eval(f, 99, xs), lambda: fe.eval(f, node, xs, centering="zero_mean"), lambda: fe.fit(f, min_points_per_subregion=1)][k]
            with methods.silent():
                got = outcome(bad)
            ctx.ev("rejected_calls", got[0] == "raise")
            ops.append("reject %d" % k)
            if got[0] != "raise":
                raise Skip("call accepted")
            changed += 1
        elif r < 0.5:
            kw = {"centering": cen, "heterogeneity": bool(rng.random() < 0.5)}
            if rng.random() < 0.6:
                kw["scale_x_list"] = sl
                kw["scale_y"] = scale(rng) if rng.random() < 0.5 else None
            kw.update(drawn_range(rng, name))

            def dr(o):
                with methods.silent():
                    o.plot(f, node, **kw)
                return figs.take()
            got, want = outcome(lambda: dr(fe)), outcome(lambda: dr(fresh(f)))
            figs.take()
            agree(ctx, got, want, name + "-plot-history", "plot(%d, %d, %r) after %s" % (f, node, kw, ops))
            ctx.ev("plots")
            ctx.ev("scaled_plots", "scale_x_list" in kw)
            ctx.ev("ranged_plots", "y_limits" in kw or "dy_limits" in kw)
            answers += 1
            changed += 1
            ops.append("plot %d/%d %s" % (f, node, "scaled" if "scale_x_list" in kw else ""))
        elif r < 0.65:
            imp = bool(rng.random() < 0.5)
            sc = sl if rng.random() < 0.5 else None
            which = "describe_subregions" if rng.random() < 0.5 else "show_partitioning"

            def rep(o):
                with methods.silent() as buf:
                    getattr(o, which)(f, only_important=imp, scale_x_list=sc)
                    return buf.getvalue()
            agree(ctx, outcome(lambda: rep(fe)), outcome(lambda: rep(fresh(f))), name + "-report-history", "%s after %s" % (which, ops))
            ctx.ev("reports_compared")
            answers += 1
            changed += 1
            ops.append(which + (" scaled" if sc else ""))
        else:
            kw = {"centering": cen, "heterogeneity": bool(rng.random() < 0.5)}

            def ev(o):
                with methods.silent():
                    return o.eval(f, node, xs, **kw)
            agree(ctx, outcome(lambda: ev(fe)), outcome(lambda: ev(fresh(f))), name + "-eval-history",
                  "eval(%d, %d, %r) after %s" % (f, node, kw, ops))
            ctx.ev("evals")
            answers += 1
            asked[f].append(xs)
            ops.append("eval %d/%d %s" % (f, node, cen))
        ctx.ev("regional_answers")
    for f in last:
        ctx.check(tree_text(fe, f) == tree_text(trees[f], f), name + "-tree-history", lambda: "the trees changed after %s" % ops)
    ctx.case(nontrivial=answers >= 3 and changed >= 2, method=name, n=len(X), d=d, model=model.name, ops=ops, x0=float(X[0, 0]))


def scen_implicit(ctx, rng):
    """A regional object that is used without any fit call: defaults, whatever is asked first."""
    name = methods.REGIONAL[int(rng.choice(4))]
    X, kk, f, model, lim, how, L = methods.problem(rng, name, nmax=40, dmin=2, dmax=3, how="none", nmin=20)
    jac = model.jac if name in ("rdpdp", "rrhale") else None
    with methods.silent():
        a, b = (methods.make(name, X, model, jac=jac) for _ in range(2))
        xs = gen.points(rng, L[0, f], L[1, f], t=4)
        outcome(lambda: a.plot(f, 0, scale_x_list=[scale(rng) for _ in range(X.shape[1])]))
        figs.take()
        outcome(lambda: a.describe_subregions(f))
        b.fit(f)
        got, want = outcome(lambda: a.eval(f, 0, xs)), outcome(lambda: b.eval(f, 0, xs))
    agree(ctx, got, want, name + "-implicit-fit", "eval without fit")
    ctx.ev("implicit_fits")
    ctx.case(method=name, n=len(X), model=model.name, x0=float(X[0, 0]))


def drawn_index(fg):
    """The numbers a figure of an index shows: bar lengths, or cells and the texts on them."""
    out = []
    for ax in fg:
        for d in ax:
            out.append((d["title"], np.array([r[2] for r in d["rects"]]), [np.asarray(i) for i in d["images"]],
                        np.array([float(t) for _, t in d["texts"]]), d["xticks"] if d["images"] else 0, d["yticks"] if d["images"] or d["rects"] else 0))
    return out


def same_index(ctx, got, want, what):
    ctx.check(got[0] == want[0], "index-plot-history", lambda: "%s: %r, a fresh object: %r" % (what, got[:2], want[:2]))
    if got[0] == "raise":
        return
    g, w = drawn_index(got[1]), drawn_index(want[1])
    ctx.check(len(g) == len(w), "index-plot-history", lambda: "%s draws %d axes, a fresh object %d" % (what, len(g), len(w)))
    for u, v in zip(g, w):
        ctx.check(u[0] == v[0] and u[4:] == v[4:] and len(u[2]) == len(v[2]), "index-plot-history", lambda: "%s: %r, a fresh object: %r" % (what, u, v))
        for p, q, tol in [(u[1], v[1], 1e-9), (u[3], v[3], 0.0101)] + [(p, q, 1e-9) for p, q in zip(u[2], v[2])]:
            ctx.check(np.shape(p) == np.shape(q) and np.allclose(p, q, rtol=1e-9, atol=tol, equal_nan=True), "index-plot-history",
                      lambda: "%s shows %r, a fresh object %r" % (what, np.ravel(p)[:6], np.ravel(q)[:6]))
    ctx.ev("index_plots_compared")


def scen_index(ctx, rng):
    from effector.interaction import HIndex, REPID
    d = int(rng.integers(2, 5))
    X, kk = gen.dataset(rng, gen.pick_n(rng, 4, 25), d)
    model = gen.model(rng, X)
    rep = rng.random() < 0.4
    if rep and np.any(np.ptp(X, axis=0) == 0):
        raise Skip("constant feature")
    new = (lambda: REPID(X, model, None, "all")) if rep else (lambda: HIndex(X, model, "all"))
    o, ops = new(), []
    n_ans = 0
    for _ in range(int(rng.integers(5, 14))):
        r = rng.random()
        i, j = (int(v) for v in rng.permutation(d)[:2])
        with methods.silent():
            if r < 0.12:
                if rep:
                    o.fit(i if rng.random() < 0.5 else "all")
                else:
                    o.fit(pairwise_matrix=bool(rng.random() < 0.7), one_vs_all=bool(rng.random() < 0.7))
                ops.append("fit")
                continue
            if r < 0.27:
                args = () if rep else (bool(rng.random() < 0.7), bool(rng.random() < 0.7))

                def pl(ob):
                    figs.take()
                    ob.plot(*args)
                    return figs.take()
                g, w = outcome(lambda: pl(o)), outcome(lambda: pl(new()))
                figs.take()
                same_index(ctx, g, w, "plot%r after %s" % (args, ops))
                if g[0] == "raise":
                    raise Skip("plot of a degenerate index")
                ops.append("plot")
                continue
            if rep or rng.random() < 0.4:
                got, want = o.eval_one_vs_all(i), new().eval_one_vs_all(i)
                ops.append("one %d" % i)
            else:
                got, want = o.eval_pairwise(i, j), new().eval_pairwise(i, j)
                ops.append("pair %d %d" % (i, j))
        ctx.check(ref.close(got, want, 1e-9, max(abs(want), 1e-9)), "index-history", lambda: "%r, a fresh object answers %r, after %s" % (got, want, ops))
        ctx.ev("index_answers")
        ctx.ev("answers_compared")
        n_ans += 1
    if not rep and o.fitted_interaction_matrix:
        with methods.silent():
            w = new()
            w.fit(True, False)
        ctx.check(ref.close(o.interaction_matrix, w.interaction_matrix, 1e-9, max(1e-6, np.abs(w.interaction_matrix).max())), "index-matrix-history", lambda: ref.worst(o.interaction_matrix, w.interaction_matrix))
    ctx.case(nontrivial=n_ans >= 2, index="REPID" if rep else "HIndex", n=len(X), d=d, model=model.name, ops=ops, x0=float(X[0, 0]))


SCENARIOS = [("global", scen_global, 8), ("regional", scen_regional, 6), ("implicit", scen_implicit, 1), ("index", scen_index, 3)]
