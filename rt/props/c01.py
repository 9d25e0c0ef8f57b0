"""C01: PDP / ICE equal the definition, on exactly the in-range instances, vectorised or not."""
import numpy as np
from rt import gen, ref
from rt.harness import Skip

RULE = ("random design matrix (13 column kinds, N 2..400, D 1..12), black box (linear/additive/interacting/rough/"
        "bit-hash), axis limits (none/wide/narrow/on data values) and evaluation points (unsorted, repeated, outside); "
        "non-trivial: at least 2 in-range instances and a model that depends on the feature")
CASES = {"quick": 2400, "thorough": 40000}
REQUIRED = ["curves_compared", "ice_values_compared", "query_rows_checked", "rows_out_of_range", "nd_curves"]
ASSUMPTIONS = ["the black box is a deterministic row-wise function"]


def setup(ctx, rng, nmax=250):
    d = int(rng.integers(1, 13)) if rng.random() < 0.3 else int(rng.integers(1, 5))
    n = gen.pick_n(rng, 2, nmax)
    X, kinds = gen.dataset(rng, n, d)
    f = int(rng.integers(d))
    model = gen.model(rng, X, foi=f)
    lim, how = gen.limits(rng, X)
    L = gen.full_limits(X, lim)
    if not L[0, f] < L[1, f]:
        raise Skip("constant feature")
    keep = gen.in_range(X, L, f)
    if not keep.any():
        raise Skip("no instance in range")
    ctx.case(nontrivial=keep.sum() > 1, n=n, d=d, feature=f, kind=kinds[f], model=model.name, limits=how,
             in_range=int(keep.sum()), x0=float(X[0, f]))
    ctx.ev("rows_out_of_range", int((~keep).sum()))
    return X, kinds, f, model, lim, L, keep


def check_queries(ctx, probe, Xin, f, xs, key, fractions=()):
    """Every query is an in-range instance with the feature moved to one of the requested points."""
    ctx.check(not probe.bad, key + "-bad-query", lambda: probe.bad[0])
    Q = probe.all_rows()
    if len(Q) == 0 or len(Q) > 60000:
        return
    other = [j for j in range(Xin.shape[1]) if j != f]
    ok_f = np.isin(Q[:, f], np.concatenate([np.asarray(xs, dtype=float)] + [np.asarray(a) for a in fractions]))
    ctx.check(ok_f.all(), key + "-foreign-point", lambda: "the model was asked for feature value %r" % Q[~ok_f][0, f])
    if other:
        have = {r.tobytes() for r in np.ascontiguousarray(Xin[:, other]) + 0.0}
        bad = [i for i, r in enumerate(np.ascontiguousarray(Q[:, other]) + 0.0) if r.tobytes() not in have]
        ctx.check(not bad, key + "-foreign-instance",
                  lambda: "the model was asked for a row that is no in-range instance: %r" % Q[bad[0]])
    ctx.ev("query_rows_checked", len(Q))


def scen_eval(ctx, rng):
    from effector import PDP
    X, kinds, f, model, lim, L, keep = setup(ctx, rng)
    xs = gen.points(rng, L[0, f], L[1, f], X[:, f])
    probe = gen.Probe(model)
    pdp = PDP(X, probe, axis_limits=lim, nof_instances="all")
    want = ref.ice(model, X[keep], f, xs)
    sc = np.max(np.abs(want)) + 1e-300
    pdp.fit(f, centering=False)
    order = rng.permutation(6)
    for op in order:
        vec = bool(rng.random() < 0.5)
        probe.reset()
        if op == 0:
            got = pdp.eval(f, xs, use_vectorized=vec)
            ctx.check(ref.close(got, want.mean(axis=1), 1e-11, sc), "pdp-mean", lambda: ref.worst(got, want.mean(axis=1)))
        elif op == 1:
            got = pdp.eval(f, xs, heterogeneity=True, use_vectorized=vec)
            ctx.check(isinstance(got, tuple) and len(got) == 2, "pdp-heterogeneity-shape", "no (mean, heterogeneity) pair")
            ctx.check(ref.close(got[0], want.mean(axis=1), 1e-11, sc), "pdp-mean", lambda: ref.worst(got[0], want.mean(axis=1)))
            ctx.check(ref.close(got[1], want.std(axis=1), 1e-9, sc), "pdp-heterogeneity", lambda: ref.worst(got[1], want.std(axis=1)))
        elif op == 2:
            got = pdp.eval(f, xs, return_all=True, use_vectorized=vec)
            ctx.check(np.shape(got) == want.shape, "ice-shape", "%s, expected %s" % (np.shape(got), want.shape))
            ctx.check(ref.close(np.sort(got, axis=1), np.sort(want, axis=1), 1e-12, sc), "ice-values", lambda: ref.worst(got, want))
            ctx.ev("ice_values_compared", want.size)
        elif op == 3:      # the same request in both implementations
            a = pdp.eval(f, xs, heterogeneity=True, use_vectorized=True)
            b = pdp.eval(f, xs, heterogeneity=True, use_vectorized=False)
            ctx.check(ref.close(a[0], b[0], 1e-11, sc) and ref.close(a[1], b[1], 1e-9, sc), "pdp-vectorized-differs",
                      lambda: ref.worst(a[0], b[0]))
        elif op == 4 and X.shape[1] > 1:      # another feature in between
            g = int((f + 1 + rng.integers(X.shape[1] - 1)) % X.shape[1])
            if L[0, g] < L[1, g] and gen.in_range(X, L, g).any():
                ys = gen.points(rng, L[0, g], L[1, g], X[:, g], t=5)
                pdp.fit(g, centering=False)
                got = pdp.eval(g, ys)
                w2 = ref.ice(model, X[gen.in_range(X, L, g)], g, ys).mean(axis=1)
                ctx.check(ref.close(got, w2, 1e-11, np.max(np.abs(w2)) + sc), "pdp-mean", lambda: ref.worst(got, w2))
            continue
        elif op == 5:      # one point at a time
            k = int(rng.integers(len(xs)))
            got = pdp.eval(f, xs[k:k + 1], use_vectorized=vec)
            ctx.check(ref.close(got, want[k:k + 1].mean(axis=1), 1e-11, sc), "pdp-pointwise", lambda: ref.worst(got, want[k:k + 1].mean(axis=1)))
        else:
            continue
        ctx.ev("curves_compared")
        check_queries(ctx, probe, X[keep], f, xs, "pdp")


def scen_large(ctx, rng):
    """Many points and many instances at once."""
    from effector import PDP
    d = int(rng.integers(1, 4))
    shape = str(rng.choice(["both", "both", "both", "instances", "points"]))
    n = {"both": int(rng.integers(500, 1500)), "instances": int(rng.integers(3000, 20000)),
         "points": int(rng.integers(2, 60))}[shape]
    X, kinds = gen.dataset(rng, n, d)
    f = int(rng.integers(d))
    model = gen.model(rng, X, foi=f)
    lim, how = gen.limits(rng, X)
    L = gen.full_limits(X, lim)
    keep = gen.in_range(X, L, f)
    if not L[0, f] < L[1, f] or not keep.any():
        raise Skip("degenerate")
    t = {"both": int(rng.integers(100, 400)), "instances": int(rng.integers(1, 6)),
         "points": int(rng.integers(1000, 3000))}[shape]
    xs = rng.uniform(L[0, f], L[1, f], t)
    pdp = PDP(X, model, axis_limits=lim, nof_instances="all")
    vec = bool(rng.random() < 0.6)
    got, std = pdp.eval(f, xs, heterogeneity=True, use_vectorized=vec)
    want = ref.ice(model, X[keep], f, xs)
    sc = np.max(np.abs(want))
    ctx.case(n=n, d=d, feature=f, t=t, vec=vec, model=model.name, x0=float(X[0, f]))
    ctx.check(ref.close(got, want.mean(axis=1), 1e-10, sc), "pdp-mean", lambda: ref.worst(got, want.mean(axis=1)))
    ctx.check(ref.close(std, want.std(axis=1), 1e-9, sc), "pdp-heterogeneity", lambda: ref.worst(std, want.std(axis=1)))
    ctx.ev("curves_compared")
    ctx.ev("ice_values_compared", want.size)


def scen_lowlevel(ctx, rng):
    """The 1-D and n-D partial dependence functions, vectorised and not."""
    from effector import global_effect_pdp as g
    X, kinds, f, model, lim, L, keep = setup(ctx, rng, 80)
    n, d = X.shape
    t = int(rng.integers(1, 20))
    xs = gen.points(rng, L[0, f], L[1, f], X[:, f], t=t)
    want = ref.ice(model, X, f, xs)
    wantj = ref.dice(model.jac, X, f, xs)
    for fn in (g.pdp_1d_vectorized, g.pdp_1d_non_vectorized):
        for jac in (False, True):
            w = wantj if jac else want
            sc = np.max(np.abs(w)) + 1e-300
            m = model.jac if jac else model
            got = fn(m, X, xs, f, heterogeneity=False, model_returns_jac=jac)
            ctx.check(ref.close(got, w.mean(axis=1), 1e-11, sc), "pdp1d-mean", lambda: ref.worst(got, w.mean(axis=1)))
            got = fn(m, X, xs, f, heterogeneity=True, model_returns_jac=jac)
            ctx.check(len(got) == 3 and ref.close(got[1], w.std(axis=1), 1e-9, sc)
                      and ref.close(got[2], w.std(axis=1) / np.sqrt(n), 1e-9, sc), "pdp1d-std", lambda: ref.worst(got[1], w.std(axis=1)))
            ctx.ev("curves_compared", 2)
    k = int(rng.integers(1, d + 1))
    fs = [int(v) for v in rng.permutation(d)[:k]]
    P = np.stack([gen.points(rng, L[0, j], L[1, j], X[:, j], t=t) for j in fs], axis=1)
    w = []
    for row in P:
        Z = X.copy()
        for j, v in zip(fs, row):
            Z[:, j] = v
        w.append(model(Z))
    w = np.array(w)
    sc = np.max(np.abs(w)) + 1e-300
    for fn, kw in ((g.pdp_nd_vectorized, {"model_returns_jac": False}), (g.pdp_nd_non_vectorized, {"is_jac": False})):
        got = fn(model, X, P, fs, heterogeneity=False, **kw)
        ctx.check(ref.close(got, w.mean(axis=1), 1e-11, sc), "pdpnd-mean", lambda: ref.worst(got, w.mean(axis=1)))
        got = fn(model, X, P, fs, heterogeneity=True, **kw)
        ctx.check(ref.close(got[0], w.mean(axis=1), 1e-11, sc) and ref.close(got[1], w.std(axis=1), 1e-9, sc)
                  and ref.close(got[2], w.std(axis=1) / np.sqrt(n), 1e-9, sc), "pdpnd-std", lambda: ref.worst(got[1], w.std(axis=1)))
        ctx.ev("nd_curves", 2)


SCENARIOS = [("eval", scen_eval, 6), ("large", scen_large, 1), ("low-level", scen_lowlevel, 2)]
