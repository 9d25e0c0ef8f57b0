"""C14: subsampling keeps distinct, complete, aligned and reproducible instances."""
import numpy as np
from rt import gen, ref, methods
from rt.harness import Skip

WARM = methods.warm
RULE = ("all methods and indices on data with a row-identifier column and number of instances from 1 to beyond N; the instances used are read off "
        "the model queries and the object and matched with the caller's rows and derivatives; non-trivial: fewer instances than rows")
CASES = {"quick": 1300, "thorough": 20000}
REQUIRED = ["subsampled", "complete", "query_rows", "effects_aligned", "equal_to_restricted", "reproduced", "coverage_runs", "large_coverage_runs", "all", "beyond",
            "regional", "index"] + methods.GLOBAL + methods.REGIONAL
ASSUMPTIONS = ["instances are identified by a column of distinct values",
               "coverage is checked over 150 seeds: a row that is chosen at all fairly is missed with probability below 1e-15"]


def data(rng, n, d, shap):
    X, kk = gen.dataset(rng, n, d, [str(rng.choice([k for k in gen.COLS if k not in ("offset", "tiny")])) for _ in range(d)])
    X[:, d - 1] = rng.permutation(n) + 1.0
    if rng.random() < 0.5:
        X[:, d - 1] = np.sort(X[:, d - 1])
    f = int(rng.integers(d - 1))
    if len(np.unique(X[:, f])) < 2:
        raise Skip("constant")
    return X, f


def pick_k(rng, n, lo):
    r = rng.random()
    if r < 0.12:
        return "all"
    if r < 0.2:
        return n
    if r < 0.3:
        return n + int(rng.integers(1, 200))
    if r < 0.45:
        return n - 1
    return int(rng.integers(lo, n))


def ids_of(ctx, X, rows, k, what):
    """Rows of the caller that these rows are; checks that they are distinct and complete."""
    ids = rows[:, -1]
    at = {v: i for i, v in enumerate(X[:, -1])}
    ctx.check(all(v in at for v in ids), "foreign-row", lambda: "%s holds a row that is not one of the caller's" % what)
    idx = np.array([at[v] for v in ids], dtype=int)
    ctx.check(np.array_equal(X[idx], rows), "broken-row", lambda: "%s holds rows mixed from several instances" % what)
    ctx.check(len(set(ids)) == len(ids), "repeated-row", lambda: "%s holds an instance twice" % what)
    n = len(X)
    want = n if k == "all" or k >= n else k
    ctx.check(len(ids) == want, "row-count", lambda: "%s holds %d instances, %d (of %d) were asked for" % (what, len(ids), want, n))
    ctx.ev("all" if k == "all" else ("beyond" if k >= n else "subsampled"))
    ctx.ev("complete", want == n)
    return idx


def check_queries(ctx, probe, X, idx, f):
    """Every query is one of the chosen instances with only feature f moved."""
    Q = probe.all_rows()
    at = {v: i for i, v in enumerate(X[:, -1])}
    j = [c for c in range(X.shape[1]) if c != f]
    q = np.array([at.get(v, -1) for v in Q[:, -1]])
    ctx.check(np.all(q >= 0) and np.array_equal(Q[:, j], X[q][:, j]), "broken-query", "a query mixes several instances")
    ctx.check(set(q) <= set(idx.tolist()), "other-instances", lambda: "%d instances queried, %d chosen" % (len(set(q)), len(idx)))
    ctx.ev("query_rows", len(Q))
    return set(q)


def scen_global(ctx, rng):
    name = methods.GLOBAL[ctx.index // 20 % 5] if ctx.index % 10 else "shap"
    if name == "shap" and rng.random() < 0.5:
        name = "rhale"
    d = int(rng.integers(2, 4))
    n = gen.pick_n(rng, 5, 35 if name == "shap" else 120)
    X, f = data(rng, n, d, name == "shap")
    k = pick_k(rng, n, 3)
    model = gen.model(rng, X, foi=f)
    probe = gen.Probe(model)
    jac = model.jac if name in ("dpdp", "rhale") else None
    effect = rng.normal(size=X.shape) if name == "rhale" and rng.random() < 0.7 else None
    seed = int(rng.integers(2 ** 31))
    kw, fd = methods.fit_options(rng, name)
    kw.pop("use_vectorized", None)
    xs = gen.points(rng, X[:, f].min(), X[:, f].max(), t=5, outside=False)

    def ask(o):
        o.fit(f, **kw)
        return o.eval(f, xs, heterogeneity=True, centering=kw["centering"])
    np.random.seed(seed)
    fe = methods.make(name, X, probe, None, jac=jac, effect=effect, nof=k)
    idx = ids_of(ctx, X, fe.data, k, name)
    ctx.case(nontrivial=len(idx) < n, method=name, n=n, d=d, k=k, model=model.name, effects=effect is not None, fit=fd, x0=float(X[0, f]))
    if len(np.unique(X[idx, f])) < 2:
        raise Skip("constant in the sample")
    ctx.ev(name)
    try:
        got = ask(fe)
    except AssertionError:
        raise Skip("refused")
    if name in ("pdp", "ale"):
        used = check_queries(ctx, probe, X, idx, f)
        ctx.check(used == set(idx.tolist()), "unused-instances", lambda: "only %d of the %d chosen instances are used" % (len(used), len(idx)))
    # the same effect as that of an object that is given only these rows
    o = methods.make(name, X[idx], model, None, jac=jac, effect=None if effect is None else effect[idx])
    want = ask(o)
    atol = 1e-11 * float(np.abs(model(X)).max())
    tol = 1e-6 if name == "shap" else 1e-9
    for u, v in zip(got, want):
        ctx.check(ref.close(u, v, tol, atol=atol if name != "dpdp" else 0.0), "restricted", lambda: "effect with nof_instances=%r differs from that of the chosen rows%s: %s" % (
            k, " and their effects" if effect is not None else "", ref.worst(u, v)))
    ctx.ev("equal_to_restricted")
    ctx.ev("effects_aligned", effect is not None and len(idx) < n)
    np.random.seed(seed)
    again = methods.make(name, X, model, None, jac=jac, effect=effect, nof=k)
    ctx.check(np.array_equal(np.sort(again.data[:, -1]), np.sort(fe.data[:, -1])), "not-reproducible", "other instances with the same seed")
    got2 = ask(again)
    ctx.check(all(ref.close(u, v, tol, atol=atol) for u, v in zip(got, got2)), "not-reproducible", "another answer with the same seed")
    ctx.ev("reproduced")


def scen_regional(ctx, rng):
    name = methods.REGIONAL[ctx.index // 20 % 5] if ctx.index % 10 else "rrhale"
    d = int(rng.integers(2, 4))
    n = gen.pick_n(rng, 14, 30 if name == "rshap" else 70)
    X, f = data(rng, n, d, name == "rshap")
    k = pick_k(rng, n, 10)
    model = methods.nested(rng, X, f) if rng.random() < 0.6 else gen.model(rng, X, foi=f)
    jac = model.jac if name in ("rdpdp", "rrhale") else None
    effect = rng.normal(size=X.shape) if name == "rrhale" and rng.random() < 0.6 else None
    seed = int(rng.integers(2 ** 31))
    kw = {"max_depth": 1, "nof_candidate_splits_for_numerical": 3, "min_points_per_subregion": 3, "heter_small_enough": 0.0,
          "heter_pcg_drop_thres": 0.0, "split_categorical_features": True}

    def build():
        np.random.seed(seed)
        with methods.silent():
            o = methods.make(name, X, model, jac=jac, effect=effect, nof=k)
            o.fit(f, **kw)
        return o
    fe = build()
    ctx.ev(name)
    tree = fe.tree_pruned["feature_%d" % f]
    ctx.case(nontrivial=k != "all" and k < n, method=name, n=n, d=d, k=k, model=model.name, effects=effect is not None, x0=float(X[0, f]))
    if tree is None:
        raise Skip("no tree")
    E = effect if effect is not None else (model.jac(X) if name == "rrhale" else None)
    root = tree.nodes[0].data
    idx = ids_of(ctx, X, root["data"], k, name)
    ctx.check(np.array_equal(np.sort(fe.data[:, -1]), np.sort(root["data"][:, -1])), "row-count", "the tree holds other instances than the object")
    for node in tree.nodes:
        if E is None:
            break
        at = {v: i for i, v in enumerate(X[:, -1])}
        j = [at[v] for v in node.data["data"][:, -1]]
        ctx.check(np.array_equal(node.data["data_effect"], E[j]), "effects-misaligned", lambda: "node %r does not hold its instances' derivatives" % node.name)
        ctx.ev("effects_aligned", len(idx) < n)
    # evaluating a node is the effect of these rows
    node = tree.nodes[int(rng.integers(len(tree.nodes)))]
    at = {v: i for i, v in enumerate(X[:, -1])}
    j = [at[v] for v in node.data["data"][:, -1]]
    R = X[j]
    if len(np.unique(R[:, f])) >= 2:
        from rt.props.c12 import counterpart
        xs = gen.points(rng, R[:, f].min(), R[:, f].max(), t=4, outside=False)
        try:
            o, fit = counterpart(name, kw, R, None if E is None else E[j], model, jac, f)
            o.fit(f, **fit)
            want = o.eval(f, xs, heterogeneity=True)
        except AssertionError:
            want = None
        if want is not None:
            with methods.silent():
                got = fe.eval(f, node.idx, xs, heterogeneity=True)
            atol = 1e-11 * float(np.abs(model(X)).max()) if name != "rdpdp" else 0.0
            for u, v in zip(got, want):
                ctx.check(ref.close(u, v, 1e-6 if name == "rshap" else 1e-9, atol=atol), "restricted", lambda: ref.worst(u, v))
            ctx.ev("equal_to_restricted")
    b = build()
    names = [[v.name for v in t.nodes] for t in (b.tree_pruned["feature_%d" % f], tree)]
    ctx.check(np.array_equal(b.data, fe.data) and names[0] == names[1], "not-reproducible", "other instances or another tree with the same seed")
    ctx.ev("reproduced")
    ctx.ev("regional")


def scen_index(ctx, rng):
    from effector.interaction import HIndex, REPID
    d = int(rng.integers(2, 4))
    n = gen.pick_n(rng, 5, 40)
    X, f = data(rng, n, d, False)
    k = pick_k(rng, n, 3)
    model = gen.model(rng, X, foi=f)
    probe = gen.Probe(model)
    seed = int(rng.integers(2 ** 31))
    rep = rng.random() < 0.4
    new = lambda m, x, kk: REPID(x, m, None, kk) if rep else HIndex(x, m, kk)
    np.random.seed(seed)
    o = new(probe, X, k)
    idx = ids_of(ctx, X, np.asarray(o.data, dtype=float), k, "index")
    if rep and len(np.unique(X[idx, f])) < 2:
        raise Skip("constant in the sample")
    a = o.eval_one_vs_all(f) if rep else o.eval_pairwise(f, d - 1)
    b = new(model, X[idx], "all").eval_one_vs_all(f) if rep else new(model, X[idx], "all").eval_pairwise(f, d - 1)
    ctx.check(ref.close(a, b, 1e-9, max(abs(b), 1e-6)), "restricted", lambda: "index %r, of the chosen rows alone %r" % (a, b))
    np.random.seed(seed)
    o2 = new(model, X, k)
    ctx.check(np.array_equal(np.sort(o2.data[:, -1]), np.sort(o.data[:, -1])), "not-reproducible", "other instances with the same seed")
    if not rep:
        j = [c for c in range(d) if c not in (f, d - 1)]
        at = {tuple(X[i, j]) for i in idx} if j else {()}
        Q = probe.all_rows()
        ctx.check(all(tuple(q) in at for q in Q[:, j]), "other-instances", "a query uses an instance that was not chosen")
    ctx.ev("reproduced")
    ctx.ev("index")
    ctx.case(nontrivial=len(idx) < n, index="REPID" if rep else "HIndex", n=n, d=d, k=k, model=model.name, x0=float(X[0, f]))


def scen_coverage(ctx, rng):
    """Over many seeds every instance gets chosen, and not always with the same company."""
    from effector.interaction import HIndex
    kind = (methods.GLOBAL + ["rpdp", "rale", "rrhale", "hindex"])[int(rng.integers(9))]
    n = int(rng.integers(4, 13))
    k = int(rng.integers(max(2, n // 4 + 1), n))
    X = np.stack([rng.normal(size=n), np.arange(n) + 1.0], axis=1)
    model = gen.linear(rng, X)
    E = rng.normal(size=X.shape)
    np.random.seed(int(rng.integers(2 ** 31)))
    chosen, sets = set(), set()
    for _ in range(150):
        if kind == "hindex":
            o = HIndex(X, model, k)
        else:
            with methods.silent():
                o = methods.make(kind, X, model, jac=model.jac, effect=E if "rhale" in kind else None, nof=k, avg=0.0)
        got = o.data[:, -1]
        ctx.check(len(got) == k == len(set(got)), "row-count", lambda: "%s holds instances %r, %d of %d were asked for" % (kind, sorted(got), k, n))
        chosen |= set(got)
        sets.add(frozenset(got))
        ctx.ev("subsampled")
    ctx.check(len(chosen) == n, "never-chosen", lambda: "%s: instances %r of %d are never among the %d chosen" % (kind, sorted(set(X[:, -1]) - chosen), n, k))
    ctx.check(len(sets) > 1, "not-random", "always the same instances")
    ctx.ev("coverage_runs")
    ctx.ev("distinct_samples", len(sets))
    ctx.case(method=kind, n=n, k=k, x0=float(X[0, 0]))


def scen_coverage_large(ctx, rng):
    """A few of many instances: over the seeds, every third of the data is reached."""
    from effector.interaction import HIndex
    kind = (methods.GLOBAL + ["rpdp", "rale", "rrhale", "hindex"])[int(rng.integers(9))]
    n = int(rng.integers(3000, 40000))
    k = int(rng.integers(2, 8))
    X = np.stack([rng.normal(size=n), np.arange(n) + 1.0], axis=1)
    model = gen.linear(rng, X)
    E = X * 2 if "rhale" in kind else None
    np.random.seed(int(rng.integers(2 ** 31)))
    hit, sets = np.zeros(3, dtype=int), set()
    for _ in range(60):
        if kind == "hindex":
            o = HIndex(X, model, k)
        else:
            with methods.silent():
                o = methods.make(kind, X, model, jac=model.jac, effect=E, nof=k, avg=0.0)
        got = o.data[:, -1]
        ctx.check(len(got) == k == len(set(got)), "row-count", lambda: "%s holds instances %r, %d of %d were asked for" % (kind, sorted(got), k, n))
        hit += np.bincount(((got - 1) * 3 // n).astype(int), minlength=3)
        sets.add(frozenset(got))
        ctx.ev("subsampled")
    ctx.check(hit.min() > 0, "never-chosen", lambda: "%s: of the thirds of %d instances, %r are chosen (%d in each of 60 draws)" % (kind, n, hit.tolist(), k))
    ctx.check(len(sets) > 1, "not-random", "always the same instances")
    ctx.ev("large_coverage_runs")
    ctx.ev("distinct_samples", len(sets))
    ctx.case(method=kind, n=n, k=k, x0=float(X[0, 0]))


SCENARIOS = [("global", scen_global, 9), ("regional", scen_regional, 6), ("index", scen_index, 3), ("coverage", scen_coverage, 1), ("coverage-large", scen_coverage_large, 1)]
