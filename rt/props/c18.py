"""C18: interaction indices equal their definitions, however and in whatever order they are asked for."""
import numpy as np
from rt import gen, ref, methods, figs
from rt.harness import Skip

RULE = ("random data, black boxes (additive, interacting, bit hash) and orders of calls (single indices, full fits, plots, repeated) of HIndex "
        "and REPID against the definitions evaluated row by row; non-trivial: a positive index")
CASES = {"quick": 1400, "thorough": 20000}
REQUIRED = ["pairwise_compared", "one_vs_all_compared", "repid_compared", "zero_for_additive", "matrices", "plots_pairwise", "plots_one_vs_all",
            "plots_repid", "partial_fits", "subsampled", "repeated", "queries_checked", "with_itself", "small_indices", "many_instances"]
ASSUMPTIONS = ["the H-index is only judged where its denominator is not negligible against the output (the definition is 0/0 otherwise)"]


def joint_pd(model, X, fs):
    """Partial dependence on the features fs at the instances' own values, centred."""
    out = []
    for r in X:
        Z = np.array(X, dtype=float)
        Z[:, fs] = r[fs]
        out.append(np.mean(model(Z)))
    out = np.array(out)
    return out - out.mean()


class Truth:
    def __init__(self, model, X):
        self.model, self.X, self.d, self.memo = model, np.array(X, dtype=float), X.shape[1], {}
        y = np.asarray(model(self.X), dtype=float)
        self.M, self.y = float(np.abs(y).max()), y - y.mean()

    def pd(self, fs):
        fs = tuple(sorted(fs))
        if fs not in self.memo:
            self.memo[fs] = joint_pd(self.model, self.X, list(fs))
        return self.memo[fs]

    def ratio(self, nom, denom):
        return (np.mean(nom ** 2) / np.mean(denom ** 2)) if np.mean(denom ** 2) > 1e-10 * self.M ** 2 else None

    def pair(self, i, j):
        return self.ratio(self.pd((i, j)) - self.pd((i,)) - self.pd((j,)), self.pd((i, j)))

    def one(self, i):
        rest = [j for j in range(self.d) if j != i]
        return self.ratio(self.y - self.pd((i,)) - self.pd(rest), self.y)

    def repid(self, f):
        lo, hi = self.X[:, f].min(), self.X[:, f].max()
        e = np.linspace(lo, hi, 21)
        I = ref.ice(self.model, self.X, f, 0.5 * (e[1:] + e[:-1])) - ref.ice(self.model, self.X, f, [lo])
        return float(np.mean(I.std(axis=1)))


def setup(ctx, rng, nmax, dmax):
    n, d = gen.pick_n(rng, 3, nmax), methods.wide(rng, 2, dmax) if nmax > 40 else int(rng.integers(2, dmax + 1))
    if nmax < 40 and rng.random() < 0.03:
        n, d = int(rng.integers(100, 320)), 2
        ctx.ev("many_instances")
    X, kk = gen.dataset(rng, n, d)
    if np.any(np.ptp(X, axis=0) == 0):
        raise Skip("constant feature")
    add = rng.random() < 0.2
    model = gen.additive(rng, X) if add else gen.model(rng, X, ("interacting", "rough", "hash", "linear", "additive"))
    if rng.random() < 0.3:
        model = gen.Scaled(model, float(10 ** rng.uniform(-8, 6)), float(rng.choice([0.0, 3.0])) if rng.random() < 0.5 else 0.0)
    nof = int(rng.integers(3, n)) if n > 4 and rng.random() < 0.2 else "all"
    ctx.ev("subsampled", nof != "all")
    probe = gen.Probe(model)
    ctx.case(n=n, d=d, kinds=kk, model=model.name, nof=nof, x0=float(X[0, 0]))
    return X, kk, model, probe, nof, add


def queried(ctx, probe, X, key):
    """The models are only ever asked for rows made of the instances' own values."""
    ctx.check(not probe.bad, key, lambda: probe.bad[0])
    if probe.rows > 40000:
        return
    for j in range(X.shape[1]):
        Q = probe.all_rows()[:, j]
        ctx.check(np.isin(Q, X[:, j]).all(), key, "the model was asked for a value of a feature that no instance has")
    ctx.ev("queries_checked", probe.rows)
    probe.reset()


def scen_h(ctx, rng):
    from effector.interaction import HIndex
    X, kk, model, probe, nof, add = setup(ctx, rng, 28, 5)
    o = HIndex(X, probe, nof)
    Z = np.asarray(o.data)
    if nof != "all":
        ctx.check(len(Z) == nof, "instances", "%d instances instead of %d" % (len(Z), nof))
    else:
        ctx.check(np.array_equal(np.sort(Z, axis=0), np.sort(X, axis=0)), "instances", "the instances are not the data's")
    T = Truth(model, Z)
    d = X.shape[1]
    additive = add or model.name.startswith(("linear", "additive"))
    seen = {}
    pos = False

    def judge(kind, a, got):
        nonlocal pos
        w = T.pair(*a) if kind == "pair" else T.one(*a)
        if w is None:
            return
        tol = 1e-8 * (1 + abs(w))
        ctx.check(np.isfinite(got) and abs(got - w) <= tol, kind, lambda: "%s index %s: %r, by definition %r" % (kind, a, got, w))
        if additive:
            ctx.check(abs(got) < 1e-7, kind + "-additive", lambda: "%s index %s of an additive model: %r" % (kind, a, got))
            ctx.ev("zero_for_additive")
        k = (kind,) + tuple(sorted(a))
        if k in seen:
            ctx.check(abs(seen[k] - got) <= 1e-9 * (1 + abs(got)), "repeated", lambda: "%s: %r, then %r" % (k, seen[k], got))
            ctx.ev("repeated")
        seen[k] = got
        pos = pos or w > 1e-6
        ctx.ev("small_indices", 0 < w < 1e-3)
        ctx.ev({"pair": "pairwise_compared", "one": "one_vs_all_compared"}[kind])

    def matrix(M):
        ctx.check(M.shape == (d, d) and np.array_equal(M, M.T, equal_nan=True), "matrix-symmetry", lambda: "%r" % M)
        ctx.check(np.all(np.diag(M) == 0), "matrix-diagonal", lambda: "%r" % np.diag(M))
        for i in range(d):
            for j in range(i + 1, d):
                judge("pair", (i, j), M[i, j])
        ctx.ev("matrices")

    with methods.silent():
        for _ in range(int(rng.integers(1, 7))):
            r = rng.random()
            if r < 0.35:
                i, j = (int(v) for v in rng.permutation(d)[:2])
                judge("pair", (i, j), o.eval_pairwise(i, j))
                if rng.random() < 0.5:
                    got = o.eval_pairwise(i, i)
                    ctx.check(got == 0, "pair-with-itself", lambda: "pairwise index of feature %d with itself: %r" % (i, got))
                    ctx.ev("with_itself")
            elif r < 0.6:
                i = int(rng.integers(d))
                judge("one", (i,), o.eval_one_vs_all(i))
            elif r < 0.72:
                o.fit(pairwise_matrix=True, one_vs_all=False)
                matrix(np.array(o.interaction_matrix))
            elif r < 0.84:
                o.fit(pairwise_matrix=False, one_vs_all=True)
                for i in range(d):
                    judge("one", (i,), o.one_vs_all_matrix[i])
            elif all(T.pair(i, j) is not None for i in range(d) for j in range(i)) and T.one(0) is not None:
                a, b = (True, True) if rng.random() < 0.5 else (True, False) if rng.random() < 0.5 else (False, True)
                o.plot(interaction_matrix=a, one_vs_all=b)
                F = figs.take()
                F = [x for f in F for x in f if x["images"] or x["rects"] or x["texts"]]
                heat = [x for x in F if x["texts"]]
                bars = [x for x in F if x["rects"] and not x["texts"]]
                if a:
                    ctx.check(len(heat) == 1, "plot", "no heat map")
                    I = heat[0]["images"][0]
                    ctx.check(I.shape == (d, d), "plot-matrix", "the heat map has shape %s" % (I.shape,))
                    for i in range(d):
                        for j in range(d):
                            if i != j:
                                judge("pair", (i, j), float(I[i, j]))
                    for axis in ("xticks", "yticks"):
                        ctx.check([t.split()[-1] for t in heat[0][axis]] == [str(i + 1) for i in range(d)], "plot-labels", lambda: "%s %r" % (axis, heat[0][axis]))
                    texts = {p: t for p, t in heat[0]["texts"]}
                    for i in range(d):
                        for j in range(d):
                            if i != j:
                                t = texts.get((j, i))
                                ctx.check(t is not None and abs(float(t) - I[i, j]) <= 0.005 + 1e-9, "plot-text", lambda: "%r shown for %r" % (t, I[i, j]))
                    matrix(np.array(o.interaction_matrix))
                    ctx.ev("plots_pairwise")
                if b:
                    ctx.check(len(bars) == 1 and len(bars[0]["rects"]) == d, "plot", "no bars")
                    barcheck(ctx, bars[0], d, lambda i, v: judge("one", (i,), v))
                    ctx.ev("plots_one_vs_all")
    queried(ctx, probe, Z, "query")
    ctx.case(nontrivial=pos)


def barcheck(ctx, ax, d, judge):
    for i, (x, y, w, h) in enumerate(ax["rects"]):
        ctx.check(abs(y + h / 2 - i) < 1e-9 and x == 0, "plot-bars", "bar %d at %r" % (i, (x, y)))
        judge(i, w)
    ctx.check([t.split()[-1] for t in ax["yticks"]] == [str(i + 1) for i in range(d)], "plot-labels", lambda: "labels %r" % ax["yticks"])


def scen_repid(ctx, rng):
    from effector.interaction import REPID
    X, kk, model, probe, nof, add = setup(ctx, rng, 60, 4)
    d = X.shape[1]
    o = REPID(X, probe, None, nof)
    Z = np.asarray(o.data)
    if np.any(np.ptp(Z, axis=0) == 0):
        raise Skip("constant feature")
    ctx.check(len(Z) == (len(X) if nof == "all" else nof), "instances", "%d instances" % len(Z))
    T = Truth(model, Z)
    seen = {}
    additive = add or model.name.startswith(("linear", "additive"))

    def judge(i, got):
        if i not in seen:
            seen[i] = (T.repid(i), got)
        w, first = seen[i]
        ctx.check(abs(got - first) <= 1e-9 * max(abs(first), T.M), "repeated", lambda: "feature %d: %r, then %r" % (i, first, got))
        ctx.check(abs(got - w) <= 1e-9 * max(w, T.M), "repid", lambda: "feature %d: %r, by definition %r" % (i, got, w))
        if additive:
            ctx.check(abs(got) <= 1e-7 * T.M, "repid-additive", lambda: "feature %d of an additive model: %r" % (i, got))
            ctx.ev("zero_for_additive")
        ctx.ev("repid_compared")

    with methods.silent():
        for _ in range(int(rng.integers(1, 5))):
            r = rng.random()
            if r < 0.3:
                i = int(rng.integers(d))
                judge(i, o.eval_one_vs_all(i))
            elif r < 0.6:
                fs = "all" if rng.random() < 0.3 else [int(v) for v in rng.permutation(d)[:int(rng.integers(1, d + 1))]]
                fs = fs[0] if fs != "all" and len(fs) == 1 and rng.random() < 0.5 else fs
                o.fit(fs)
                for i in (range(d) if fs == "all" else [fs] if isinstance(fs, int) else fs):
                    judge(i, o.one_vs_all_matrix[i])
                ctx.ev("partial_fits", fs != "all")
            else:
                o.plot()
                F = [x for f in figs.take() for x in f]
                ctx.check(len(F) == 1 and len(F[0]["rects"]) == d, "plot", "no bars")
                barcheck(ctx, F[0], d, judge)
                ctx.ev("plots_repid")
    ctx.check(not probe.bad, "query", lambda: probe.bad[0])
    ctx.case(nontrivial=any(w > 1e-6 * T.M for w, _ in seen.values()))


SCENARIOS = [("H-index", scen_h, 3), ("REPID", scen_repid, 2)]
