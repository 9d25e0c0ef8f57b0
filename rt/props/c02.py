"""C02: d-PDP / d-ICE equal the average partial derivative, with a Jacobian or numerically."""
import numpy as np
from rt import gen, ref
from rt.harness import Skip
from rt.props.c01 import setup, check_queries

RULE = ("as C01, with the exact Jacobian (any model, bit-hash Jacobians included) or numerical derivatives of smooth "
        "models; non-trivial: at least 2 in-range instances")
CASES = {"quick": 2400, "thorough": 40000}
REQUIRED = ["view_outputs", "curves_compared", "numeric_curves", "query_rows_checked", "rows_out_of_range"]
ASSUMPTIONS = ["numerical derivatives: smooth black boxes whose features vary on scales far above the step"]


def compare(ctx, fe, f, xs, want, rtol, sc, key, rng):
    for op in rng.permutation(3):
        vec = bool(rng.random() < 0.5)
        if op == 0:
            got = fe.eval(f, xs, use_vectorized=vec)
            ctx.check(ref.close(got, want.mean(axis=1), rtol, sc), key + "-mean", lambda: ref.worst(got, want.mean(axis=1)))
        elif op == 1:
            got, std = fe.eval(f, xs, heterogeneity=True, use_vectorized=vec)
            ctx.check(ref.close(got, want.mean(axis=1), rtol, sc), key + "-mean", lambda: ref.worst(got, want.mean(axis=1)))
            ctx.check(ref.close(std, want.std(axis=1), max(rtol, 1e-9), sc), key + "-heterogeneity", lambda: ref.worst(std, want.std(axis=1)))
        else:
            got = fe.eval(f, xs, return_all=True, use_vectorized=vec)
            ctx.check(np.shape(got) == want.shape, key + "-ice-shape", "%s, expected %s" % (np.shape(got), want.shape))
            ctx.check(ref.close(np.sort(got, axis=1), np.sort(want, axis=1), rtol, sc), key + "-ice", lambda: ref.worst(got, want))
        ctx.ev("curves_compared")


def scen_jac(ctx, rng):
    from effector import DerPDP
    X, kinds, f, model, lim, L, keep = setup(ctx, rng)
    xs = gen.points(rng, L[0, f], L[1, f], X[:, f])
    pj = gen.Probe(model, jac=True)
    fe = DerPDP(X, model, pj, axis_limits=lim, nof_instances="all")
    want = ref.dice(model.jac, X[keep], f, xs)
    sc = np.max(np.abs(want)) + 1e-300
    fe.fit(f, centering=False)
    pj.reset()
    compare(ctx, fe, f, xs, want, 1e-11, sc, "dpdp", rng)
    check_queries(ctx, pj, X[keep], f, xs, "dpdp")
    if X.shape[1] > 1:
        g = int((f + 1 + rng.integers(X.shape[1] - 1)) % X.shape[1])
        if L[0, g] < L[1, g] and gen.in_range(X, L, g).any():
            fe.fit(g, centering=False)
            ys = gen.points(rng, L[0, g], L[1, g], X[:, g], t=4)
            w2 = ref.dice(model.jac, X[gen.in_range(X, L, g)], g, ys)
            compare(ctx, fe, g, ys, w2, 1e-11, np.max(np.abs(w2)) + 1e-300, "dpdp", rng)
            compare(ctx, fe, f, xs, want, 1e-11, sc, "dpdp", rng)


def scen_numeric(ctx, rng):
    from effector import DerPDP
    d = int(rng.integers(1, 6))
    n = gen.pick_n(rng, 2, 150)
    X, kinds = gen.dataset(rng, n, d, [str(rng.choice(["normal", "uniform", "rounded", "cat_even", "skewed"])) for _ in range(d)])
    f = int(rng.integers(d))
    model = gen.model(rng, X, kinds=("linear", "additive", "interacting"), foi=f)
    lim, how = gen.limits(rng, X)
    L = gen.full_limits(X, lim)
    keep = gen.in_range(X, L, f)
    if not L[0, f] < L[1, f] or not keep.any() or X[:, f].std() < 1e-2:
        raise Skip("degenerate")
    xs = gen.points(rng, L[0, f], L[1, f], X[:, f])
    fe = DerPDP(X, model, None, axis_limits=lim, nof_instances="all")
    want = ref.dice(model.jac, X[keep], f, xs)
    fmax = np.max(np.abs(ref.ice(model, X[keep], f, xs)))
    sc = np.max(np.abs(want))
    xmax = np.max(np.abs(xs))
    fe.fit(f, centering=False)
    # rounding of f over the step 1e-6, rounding of x +- 1e-6
    sc = sc * (1 + xmax) + 1e-2 * fmax
    compare(ctx, fe, f, xs, want, 1e-6, sc, "dpdp-numeric", rng)
    ctx.ev("numeric_curves")
    ctx.ev("view_outputs", model.name == "column")
    ctx.case(nontrivial=keep.sum() > 1, n=n, d=d, feature=f, kind=kinds[f], model=model.name, limits=how, x0=float(X[0, f]))


def scen_large(ctx, rng):
    """Many instances, many points, or many of both."""
    from effector import DerPDP
    d = int(rng.integers(1, 4))
    shape = str(rng.choice(["both", "instances", "points"]))
    n = {"both": int(rng.integers(400, 1000)), "instances": int(rng.integers(3000, 12000)),
         "points": int(rng.integers(2, 50))}[shape]
    t = {"both": int(rng.integers(80, 200)), "instances": int(rng.integers(1, 5)),
         "points": int(rng.integers(800, 2000))}[shape]
    X, kinds = gen.dataset(rng, n, d)
    f = int(rng.integers(d))
    model = gen.model(rng, X, foi=f)
    lim, how = gen.limits(rng, X)
    L = gen.full_limits(X, lim)
    keep = gen.in_range(X, L, f)
    if not L[0, f] < L[1, f] or not keep.any():
        raise Skip("degenerate")
    xs = rng.uniform(L[0, f], L[1, f], t)
    want = ref.dice(model.jac, X[keep], f, xs)
    sc = np.max(np.abs(want)) + 1e-300
    fe = DerPDP(X, model, model.jac, axis_limits=lim, nof_instances="all")
    vec = bool(rng.random() < 0.6)
    got, std = fe.eval(f, xs, heterogeneity=True, use_vectorized=vec)
    ctx.case(n=n, d=d, feature=f, t=t, vec=vec, shape=shape, model=model.name, x0=float(X[0, f]))
    ctx.check(ref.close(got, want.mean(axis=1), 1e-10, sc), "dpdp-mean", lambda: ref.worst(got, want.mean(axis=1)))
    ctx.check(ref.close(std, want.std(axis=1), 1e-9, sc), "dpdp-heterogeneity", lambda: ref.worst(std, want.std(axis=1)))
    ctx.ev("curves_compared")
    ctx.ev("large_curves")


SCENARIOS = [("jacobian", scen_jac, 6), ("numeric", scen_numeric, 4), ("large", scen_large, 1)]
