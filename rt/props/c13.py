"""C13: the caller's arrays stay untouched, answers are not aliased to them, and models see legitimate queries only."""
import copy
import numpy as np
from rt import gen, ref, methods, figs
from rt.harness import Skip

WARM = methods.warm
RULE = ("all methods, indices, helper functions and binning classes on random data; fingerprints of every argument before and after "
        "every call (half of the cases with read-only arrays), arguments and results overwritten afterwards and questions asked "
        "again; non-trivial: at least four calls were watched")
CASES = {"quick": 1100, "thorough": 16000}
REQUIRED = ["fingerprints", "read_only", "overwritten_data", "overwritten_effects", "overwritten_results", "queries", "jac_queries",
            "plots", "reports", "global", "regional", "index", "functions", "integer_data", "fortran_data", "feature_lists"]
ASSUMPTIONS = ["axis limits and feature names are kept by reference; the caller is not expected to change them during use"]


def snap(o):
    if isinstance(o, np.ndarray):
        return (o.shape, o.dtype.str, o.tobytes())
    if isinstance(o, dict):
        return {k: snap(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [snap(v) for v in o]
    if hasattr(o, "__dict__") and type(o).__module__.startswith("effector"):
        return snap(vars(o))
    if callable(o):
        return None
    return copy.deepcopy(o)


class Watch:
    """Fingerprints of everything the caller passed in."""

    def __init__(self, ctx, what, **args):
        self.ctx, self.what, self.args, self.before = ctx, what, args, {k: snap(v) for k, v in args.items()}

    def add(self, **args):
        self.args.update(args)
        self.before.update({k: snap(v) for k, v in args.items()})

    def check(self, call):
        for k, v in self.args.items():
            self.ctx.ev("fingerprints")
            self.ctx.check(snap(v) == self.before[k], "modified-" + k, lambda: "%s.%s modified the caller's %s" % (self.what, call, k))


def freeze(ctx, rng, *arrays):
    if rng.random() < 0.5:
        for a in arrays:
            if isinstance(a, np.ndarray):
                a.setflags(write=False)
        ctx.ev("read_only")


def represent(ctx, rng, X):
    """The same values in the layouts callers have."""
    r = rng.random()
    if r < 0.15 and np.all(X == np.round(X)) and np.all(np.abs(X) < 1e6):
        ctx.ev("integer_data")
        return X.astype(np.int64)
    if r < 0.35:
        ctx.ev("fortran_data")
        return np.asfortranarray(X)
    if r < 0.45:
        big = np.zeros((len(X) * 2, X.shape[1] + 1))
        big[::2, 1:] = X
        return big[::2, 1:]
    return X.copy()


def queries(ctx, probes):
    for p in probes:
        if p is None:
            continue
        bad = [b for b in p.bad if "dtype" not in b]
        ctx.check(not bad, "query", lambda: "%d queries of the %s; %s" % (p.calls, "Jacobian" if p.jac else "model", bad[:2]))
        ctx.ev("jac_queries" if p.jac else "queries", p.calls)


def same(a, b, atol):
    if isinstance(a, (str, type(None))):
        return a == b
    if isinstance(a, Exception):
        return isinstance(b, type(a))
    a, b = (a, b) if isinstance(a, tuple) else ((a,), (b,))
    return all(ref.close(u, v, 1e-9, atol=atol) for u, v in zip(a, b))


def outcome(fn):
    try:
        with methods.silent():
            return fn()
    except AssertionError as e:     # no binning, or the feature is constant in the region
        return e


def trash(o, rng):
    for a in (o if isinstance(o, tuple) else (o,)):
        if isinstance(a, np.ndarray) and a.ndim and a.flags.writeable:
            a[...] = rng.normal(size=a.shape) * 1e3
            yield a


def scen_global(ctx, rng):
    name = methods.GLOBAL[int(rng.choice(5, p=[.26, .2, .22, .26, .06]))]
    X, kk, f, model, lim, how, L = methods.problem(rng, name, nmax=60, kinds=["int_wide", "cat_even", "binary"] if rng.random() < 0.2 else None)
    X = represent(ctx, rng, X)
    n, d = X.shape
    jac = gen.Probe(model, keep=False, jac=True) if name in ("dpdp", "rhale") and rng.random() < 0.7 else None
    effect = model.jac(X) if name == "rhale" and rng.random() < 0.5 else None
    probe = gen.Probe(model, keep=False)
    names = ["n%d" % j for j in range(d)]
    lim = None if lim is None else np.array(lim, dtype=float)
    twin_args = (X.copy(), model, None if lim is None else lim.copy(), None if jac is None else model.jac, None if effect is None else effect.copy())
    freeze(ctx, rng, X, lim, effect)
    w = Watch(ctx, name, data=X, limits=lim, effects=effect, names=names)
    atol = 1e-12 * float(np.abs(model(X)).max())
    fe = methods.make(name, X, probe, lim, jac=jac, effect=effect, names=names)
    w.check("__init__")
    twin = methods.make(name, twin_args[0], model, twin_args[2], jac=twin_args[3], effect=twin_args[4], names=list(names))
    ops = []
    writable = X.flags.writeable
    over = False
    for k in range(int(rng.integers(4, 9))):
        r = rng.random()
        if k == 2 and writable:
            # the caller reuses its buffers
            X[...] = np.asarray(rng.normal(size=X.shape) * 100).astype(X.dtype)
            w.add(data=X)
            ctx.ev("overwritten_data")
            if effect is not None:
                effect[...] = rng.normal(size=effect.shape) * 100
                w.add(effects=effect)
                ctx.ev("overwritten_effects")
            over = True
        if r < 0.3:
            kw, fd = methods.fit_options(rng, name)
            w.add(options=kw)
            a, b = outcome(lambda: fe.fit(f, **kw)), outcome(lambda: twin.fit(f, **kw))
            if isinstance(a, Exception):
                raise Skip("refused")
            w.check("fit")
            ops.append("fit")
        elif r < 0.75:
            xs = gen.points(rng, L[0, f], L[1, f], t=int(rng.integers(1, 9)), outside=name != "shap")
            if rng.random() < 0.3:
                xs = np.repeat(xs, 2)[::2]
            freeze(ctx, rng, xs)
            w.add(points=xs)
            kw = {"centering": methods.CENTERINGS[int(rng.integers(4))], "heterogeneity": bool(rng.random() < 0.6)}
            if name in ("pdp", "dpdp"):
                kw["use_vectorized"] = bool(rng.random() < 0.6)
                if rng.random() < 0.3:
                    kw["return_all"] = True
            a, b = outcome(lambda: fe.eval(f, xs, **kw)), outcome(lambda: twin.eval(f, xs.copy(), **kw))
            w.check("eval")
            ctx.check(same(a, b, atol), "aliased-data" if over else "twin", lambda: "eval %r differs from an object whose data were left alone%s" % (
                kw, ", after the caller changed its arrays" if over else ""))
            if not isinstance(a, Exception):
                keep = copy.deepcopy(a)
                if list(trash(a, rng)):
                    ctx.ev("overwritten_results")
                c = outcome(lambda: fe.eval(f, xs, **kw))
                ctx.check(same(c, keep, atol), "aliased-result", lambda: "the answer to eval %r changed when the caller overwrote the previous one" % kw)
            ops.append("eval")
        else:
            sx, sy = {"mean": 2.0, "std": 3.0}, {"mean": -1.0, "std": 0.5}
            kw = {"heterogeneity": bool(rng.random() < 0.6), "centering": methods.CENTERINGS[int(rng.integers(4))]}
            if rng.random() < 0.6:
                kw.update(scale_x=sx, scale_y=sy)
            if rng.random() < 0.3:
                kw["y_limits"] = [-1.0, 2.0]
            if rng.random() < 0.3:
                kw["show_avg_output"] = True
            w.add(sx=sx, sy=sy, plot_options=kw)
            outcome(lambda: fe.plot(f, **kw))
            figs.take()
            w.check("plot")
            ctx.ev("plots")
            ops.append("plot")
    queries(ctx, [probe, jac])
    ctx.ev("global")
    ctx.case(nontrivial=len(ops) >= 4, method=name, n=n, d=d, ops=ops, dtype=str(X.dtype), model=model.name, x0=float(twin_args[0][0, f]))


def scen_regional(ctx, rng):
    name = methods.REGIONAL[int(rng.choice(5, p=[.26, .2, .22, .26, .06]))]
    X, kk, f, model = methods.regional_problem(rng, name, nmax=50, nmin=14, kinds=["int_wide", "cat_even", "binary"] if rng.random() < 0.2 else None)
    X = represent(ctx, rng, X)
    n, d = X.shape
    jac = gen.Probe(model, keep=False, jac=True) if name in ("rdpdp", "rrhale") and rng.random() < 0.7 else None
    effect = model.jac(X) if name == "rrhale" and rng.random() < 0.5 else None
    probe = gen.Probe(model, keep=False)
    names, types = ["n%d" % j for j in range(d)], methods.types_of(X, 10)
    twin_args = (X.copy(), None if effect is None else effect.copy())
    freeze(ctx, rng, X, effect)
    w = Watch(ctx, name, data=X, effects=effect, names=names, types=types)
    atol = 1e-12 * float(np.abs(model(X)).max())
    kw = methods.regional_options(rng, name, d)
    kw.update(heter_small_enough=0.0, nof_candidate_splits_for_numerical=3, heter_pcg_drop_thres=0.0, split_categorical_features=True,
              candidate_conditioning_features=[int(j) for j in rng.permutation(d) if j != f])
    w.add(options=kw)
    with methods.silent():
        fe = methods.make(name, X, probe, jac=jac, effect=effect, names=names, types=types)
        w.check("__init__")
        late = rng.random() < 0.4
        if late and X.flags.writeable:
            X[...] = np.asarray(rng.normal(size=X.shape) * 100).astype(X.dtype)
            w.add(data=X)
            ctx.ev("overwritten_data")
            if effect is not None:
                effect[...] = 7.0
                w.add(effects=effect)
                ctx.ev("overwritten_effects")
        which = f
        if rng.random() < 0.4:
            # a list of features; the others last, in any order
            which = [int(j) for j in rng.permutation(d) if j != f and np.ptp(X[:, j]) > 0][:1] + [f] if not late else [f]
            w.add(features=which)
            kw["candidate_conditioning_features"] = "all" if len(which) > 1 else kw["candidate_conditioning_features"]
            w.add(options=kw)
            ctx.ev("feature_lists")
        try:
            fe.fit(which, **kw)
        except AssertionError as e:
            if not methods.refused(e):
                raise
            w.check("fit")
            raise Skip("refused")
        w.check("fit")
        twin = methods.make(name, twin_args[0], model, jac=None if jac is None else model.jac, effect=twin_args[1], names=list(names), types=list(types))
        twin.fit(f, **kw)
    if X.flags.writeable:
        X[...] = np.asarray(rng.normal(size=X.shape) * 100).astype(X.dtype)
        w.add(data=X)
        ctx.ev("overwritten_data")
        if effect is not None:
            effect[...] = -7.0
            w.add(effects=effect)
            ctx.ev("overwritten_effects")
    a, b = ([None if t is None else [(v.name, v.nof_instances) for v in t.nodes] for t in (o.tree_full["feature_%d" % f], o.tree_pruned["feature_%d" % f])] for o in (fe, twin))
    ctx.check(a == b, "aliased-tree", lambda: "trees %r and %r" % (a, b))
    if a[1] is None:
        raise Skip("no tree")
    ops = ["fit"]
    for _ in range(int(rng.integers(3, 6))):
        node = int(rng.integers(len(a[1])))
        r = rng.random()
        sl = [{"mean": float(j), "std": 2.0 + j} for j in range(d)]
        w.add(scales=sl)
        if r < 0.45:
            xs = gen.points(rng, float(twin_args[0][:, f].min()), float(twin_args[0][:, f].max()), t=4, outside=False)
            freeze(ctx, rng, xs)
            w.add(points=xs)
            q = {"centering": methods.CENTERINGS[int(rng.integers(4))], "heterogeneity": bool(rng.random() < 0.6)}
            u, v = outcome(lambda: fe.eval(f, node, xs, **q)), outcome(lambda: twin.eval(f, node, xs.copy(), **q))
            w.check("eval")
            ctx.check(same(u, v, atol), "aliased-data", lambda: "eval of node %d %r differs from an object whose data were left alone" % (node, q))
            if not isinstance(u, Exception):
                keep = copy.deepcopy(u)
                if list(trash(u, rng)):
                    ctx.ev("overwritten_results")
                ctx.check(same(outcome(lambda: fe.eval(f, node, xs, **q)), keep, atol), "aliased-result", "the answer changed when the caller overwrote the previous one")
            ops.append("eval")
        elif r < 0.75:
            sy = {"mean": 1.0, "std": 2.0}
            yl = [-3.0, 3.0]
            w.add(sy=sy, yl=yl)
            outcome(lambda: fe.plot(f, node, heterogeneity=bool(rng.random() < 0.5), scale_x_list=sl, scale_y=sy, y_limits=yl))
            figs.take()
            w.check("plot")
            ctx.ev("plots")
            ops.append("plot")
        else:
            outcome(lambda: fe.describe_subregions(f, scale_x_list=sl, only_important=bool(rng.random() < 0.5)))
            outcome(lambda: fe.show_partitioning(f, scale_x_list=sl, only_important=bool(rng.random() < 0.5)))
            w.check("report")
            ctx.ev("reports")
            ops.append("report")
    queries(ctx, [probe, jac])
    ctx.ev("regional")
    ctx.case(nontrivial=len(ops) >= 4, method=name, n=n, d=d, ops=ops, dtype=str(X.dtype), model=model.name, x0=float(twin_args[0][0, f]))


def scen_index(ctx, rng):
    from effector.interaction import HIndex, REPID
    d = int(rng.integers(2, 5))
    X, kk = gen.dataset(rng, gen.pick_n(rng, 4, 20), d)
    if np.any(np.ptp(X, axis=0) == 0):
        raise Skip("constant feature")
    X = represent(ctx, rng, X)
    model = gen.model(rng, X)
    probe = gen.Probe(model, keep=False)
    keep = X.copy()
    freeze(ctx, rng, X)
    w = Watch(ctx, "index", data=X)
    rep = rng.random() < 0.4
    o = REPID(X, probe, None, "all") if rep else HIndex(X, probe, "all")
    w.check("__init__")
    if X.flags.writeable:
        X[...] = np.asarray(rng.normal(size=X.shape) * 100).astype(X.dtype)
        w.add(data=X)
        ctx.ev("overwritten_data")
    twin = REPID(keep, model, None, "all") if rep else HIndex(keep, model, "all")
    with methods.silent():
        for _ in range(3):
            i, j = (int(v) for v in rng.permutation(d)[:2])
            a, b = o.eval_one_vs_all(i), twin.eval_one_vs_all(i)
            ctx.check(ref.close(a, b, 1e-9, max(1e-9, abs(b))), "aliased-data", lambda: "index %r, %r when the data are left alone" % (a, b))
            if not rep:
                a, b = o.eval_pairwise(i, j), twin.eval_pairwise(i, j)
                ctx.check(ref.close(a, b, 1e-9, max(1e-9, abs(b))), "aliased-data", lambda: "index %r, %r when the data are left alone" % (a, b))
        o.fit() if not rep else o.fit("all")
        w.check("fit")
        try:
            o.plot()
        except (ValueError, AssertionError):
            pass
        figs.take()
        w.check("plot")
    queries(ctx, [probe])
    ctx.ev("index")
    ctx.case(index="REPID" if rep else "HIndex", n=len(keep), d=d, dtype=str(keep.dtype), model=model.name, x0=float(keep[0, 0]))


def scen_functions(ctx, rng):
    """Module-level functions and classes that users import."""
    from effector import utils, helpers, bin_splitting
    from effector.partitioning import DataTransformer
    import effector.global_effect_pdp as P
    X, kk, f, model, lim, how, L = methods.problem(rng, "pdp", nmax=50, dmin=2)
    X = represent(ctx, rng, X)
    d = X.shape[1]
    E = rng.normal(size=X.shape)
    xs = gen.points(rng, L[0, f], L[1, f], t=5)
    Z = X[: max(1, len(X) // 2)].astype(float)
    L = L.copy()
    freeze(ctx, rng, X, E, xs, L, Z)
    probe = gen.Probe(model, keep=False)
    w = Watch(ctx, "functions", data=X, effects=E, points=xs, limits=L, queries=Z)
    XF, fs = np.array(X, dtype=float), [f, (f + 1) % d]
    PS = np.stack([xs, xs], axis=1)
    xf = XF[:, f].copy()
    k = gen.in_range(XF, L, f)
    lims = np.linspace(L[0, f], L[1, f], 4)
    freeze(ctx, rng, XF, PS, xf, lims)
    w.add(data_f=XF, points_nd=PS, column=xf, bin_limits=lims, features=fs)
    ale = lambda: utils.compute_ale_params(xf[k], E[k, f], lims)
    calls = {
        "pdp_1d_vectorized": lambda: P.pdp_1d_vectorized(probe, XF, xs, f, heterogeneity=True, model_returns_jac=False),
        "pdp_1d_non_vectorized": lambda: P.pdp_1d_non_vectorized(probe, XF, xs, f, heterogeneity=True, model_returns_jac=False),
        "pdp_nd_vectorized": lambda: P.pdp_nd_vectorized(probe, XF, PS, fs, heterogeneity=True, model_returns_jac=False),
        "pdp_nd_non_vectorized": lambda: P.pdp_nd_non_vectorized(probe, XF, PS, fs, heterogeneity=True, is_jac=False),
        "jacobian": lambda: utils.compute_jacobian_numerically(probe, X),
        "limits": lambda: helpers.axis_limits_from_data(X),
        "types": lambda: utils.get_feature_types(X, 5),
        "drop": lambda: helpers.drop_points_outside_axis_limits(X, L, f),
        "fixed": lambda: bin_splitting.Fixed(XF, E, f, L).find(5, 0, 3),
        "greedy": lambda: bin_splitting.Greedy(XF, E, f, L).find(12, 0),
        "dp": lambda: bin_splitting.DP(XF, E, f, L).find(5, 0),
        "local_effects": lambda: utils.compute_local_effects(XF[k], probe, lims, f),
        "ale_params": ale,
        "fill_nans": lambda: utils.fill_nans(lims),
        "accumulated": lambda: utils.compute_accumulated_effect(xs, lims, ale()["bin_effect"], np.diff(lims)),
    }
    done = []
    for name in rng.permutation(list(calls))[:9]:
        try:
            calls[str(name)]()
        except AssertionError:
            pass
        w.check(str(name))
        done.append(str(name))
    spl = {"feat_%d" % j: [] for j in range(d)}
    spl["feat_%d" % f] = [{"feature": (f + 1) % d, "position": float(np.median(X[:, (f + 1) % d])), "type": "cont"}]
    w.add(splits=spl)
    t = DataTransformer(spl)
    out = t.transform(X)
    w.check("transform")
    keep = out.copy()
    out[...] = 3.0
    ctx.check(np.array_equal(t.transform(X), keep), "aliased-result", "DataTransformer answers changed with the returned array")
    queries(ctx, [probe])
    ctx.ev("functions")
    ctx.case(n=len(X), d=d, calls=done, dtype=str(X.dtype), x0=float(X[0, 0]))


SCENARIOS = [("global", scen_global, 6), ("regional", scen_regional, 4), ("index", scen_index, 2), ("functions", scen_functions, 2)]
