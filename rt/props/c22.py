"""C22: invalid requests and model failures are reported and do no harm."""
import numpy as np
from rt import gen, ref, methods, figs
from rt.harness import Skip

WARM = methods.warm
RULE = ("objects of all ten methods and both indices with a random valid history; then a request that is invalid, or during which the black box or its Jacobian "
        "raises (any exception class, any one of its calls); the exception must arrive unchanged, and all later answers are compared with an undisturbed twin; "
        "non-trivial: an exception arrived and answers were compared")
CASES = {"quick": 1500, "thorough": 30000}
REQUIRED = ["rejected", "injected", "answers_compared", "jacobian_failures", "first_call", "large_queries", "later_call", "last_call", "fitted_before", "unfitted_before",
            "regional_search_failures", "regional_eval_failures", "index_failures", "assertion_errors", "interrupts", "plot_failures", "other_feature_answers",
            "rejected_constructors", "infeasible_binnings", "constant_features", "unknown_nodes", "pdp", "dpdp", "ale", "rhale", "shap",
            "rpdp", "rdpdp", "rale", "rrhale", "rshap"]
ASSUMPTIONS = ["requests about one feature at a time; a failing request about several features may leave the earlier ones fitted"]


class Boom(Exception):
    pass


class Faulty:
    """A black box and its Jacobian that raise at one chosen call."""

    def __init__(self, model):
        self.model, self.calls, self.at, self.exc, self.raised = model, 0, None, None, 0
        self.jac_hit = False

    def arm(self, at, exc):
        self.calls, self.at, self.exc, self.raised = 0, at, exc, 0

    def _tick(self, jac):
        self.calls += 1
        if self.at is not None and self.calls == self.at:
            self.raised += 1
            self.jac_hit = jac
            raise self.exc

    def __call__(self, X):
        self._tick(False)
        return self.model(X)

    def jac(self, X):
        self._tick(True)
        return self.model.jac(X)


EXC = [Boom, ValueError, AssertionError, AssertionError, KeyError, IndexError, FloatingPointError, TypeError, KeyboardInterrupt, MemoryError, RuntimeError,
       NotImplementedError, AttributeError, OSError, ZeroDivisionError, OverflowError, np.linalg.LinAlgError, RecursionError,
       TimeoutError, SystemExit, UserWarning, ImportError, UnicodeError]


def pick_exc(rng):
    """Those that a program is likeliest to handle itself come more often."""
    likely = [NotImplementedError, AttributeError, ValueError, TypeError]
    return (likely[int(rng.integers(4))] if rng.random() < 0.35 else EXC[int(rng.integers(len(EXC)))])("injected")


def outcome(fn):
    try:
        with methods.silent():
            return ("value", fn())
    except AssertionError as e:
        return ("refused", str(e)[:80])


def compare(ctx, got, want, atol, what):
    """Both answers of a valid request: equal, or both refusals."""
    ctx.check(got[0] == want[0], "answer-after-failure", lambda: "%s: %r, an undisturbed object: %r" % (what, got[:2], want[:2]))
    ctx.ev("answers_compared")
    if got[0] == "refused":
        return
    a, b = got[1], want[1]
    if a is None or isinstance(a, str):
        ctx.check(a == b, "answer-after-failure", lambda: "%s: %r, an undisturbed object: %r" % (what, a, b))
        return
    if isinstance(a, list):
        m = figs.same(a, b)
        ctx.check(m is None, "plot-after-failure", lambda: "%s: %s" % (what, m))
        return
    a, b = (a, b) if isinstance(a, tuple) else ((a,), (b,))
    for u, v in zip(a, b):
        ctx.check(ref.close(u, v, 1e-9, atol=atol), "answer-after-failure", lambda: "%s: %s" % (what, ref.worst(np.asarray(u), np.asarray(v))))


def expect(ctx, exc, fn, what):
    """The injected exception arrives unchanged."""
    try:
        with methods.silent():
            r = fn()
    except BaseException as e:      # noqa: the injected one may be any
        figs.take()
        if type(e).__name__ == "CpuLimit":
            raise
        ctx.check(e is exc, "exception-replaced", lambda: "%s: the model raised %r, the caller got %r" % (what, exc, e))
        return
    figs.take()
    ctx.check(False, "exception-swallowed", "%s: the model raised %r and the call returned %r" % (what, exc, str(r)[:80]))


def rejected(ctx, fn, what):
    """An invalid request raises an ordinary error."""
    try:
        with methods.silent():
            r = fn()
    except Exception:
        figs.take()
        ctx.ev("rejected")
        return
    figs.take()
    ctx.check(False, "accepted", "%s returned %s" % (what, str(r)[:120]))


# ------------------------------------------------------------------------------------------------ global
def ops_global(rng, name, f, X, L):
    """A random valid operation on feature f: (description, function of the object)."""
    r = rng.random()
    xs = gen.points(rng, L[0, f], L[1, f], X[:, f], t=int(rng.integers(1, 6)), outside=name != "shap")
    if r < 0.4:
        kw, fd = methods.fit_options(rng, name)
        return "fit(%d, %s)" % (f, fd), lambda o: o.fit(f, **kw)
    c = methods.CENTERINGS[int(rng.integers(4))]
    if r < 0.75:
        kw = {"heterogeneity": bool(rng.random() < 0.5), "centering": c}
        if name in ("pdp", "dpdp"):
            kw["use_vectorized"] = bool(rng.random() < 0.6)
        return "eval(%d, %r)" % (f, c), lambda o: o.eval(f, xs, **kw)
    kw = {"centering": c, "show_avg_output": bool(rng.random() < 0.7), "heterogeneity": bool(rng.random() < 0.5)}
    return "plot(%d, %r)" % (f, kw), lambda o: o.plot(f, **kw)


def history(rng, name, X, L, feats, k):
    return [ops_global(rng, name, int(rng.choice(feats)), X, L) for _ in range(k)]


def apply(o, ops):
    for _, fn in ops:
        try:
            with methods.silent():
                fn(o)
        except AssertionError as e:
            if not methods.refused(e):
                raise
        figs.take()


def questions(ctx, rng, name, X, L, f, feats, fe, twin, atol, what):
    cs = [methods.CENTERINGS[int(i)] for i in rng.permutation(4)[:2]] + [False]
    for g in [f] + [j for j in feats if j != f][:1]:
        for c in cs:
            xs = gen.points(rng, L[0, g], L[1, g], X[:, g], t=5, outside=name != "shap")
            ask = lambda o: o.eval(g, xs, heterogeneity=True, centering=c)
            compare(ctx, outcome(lambda: ask(fe)), outcome(lambda: ask(twin)), atol, "%s, then eval(%d, centering=%r)" % (what, g, c))
        ctx.ev("other_feature_answers", g != f)
    if rng.random() < 0.15:
        def draw(o):
            o.plot(f, centering=cs[0], show_avg_output=True)
            return figs.take()
        compare(ctx, outcome(lambda: draw(fe)), outcome(lambda: draw(twin)), atol, what + ", then plot")
        figs.take()


def start_global(ctx, rng, large=False):
    name = methods.GLOBAL[int(rng.choice(5, p=[.24, .22, .22, .24, .08]))]
    if large:
        name = str(rng.choice(["pdp", "pdp", "dpdp", "ale", "rhale"]))
    X, kk, f, model, lim, how, L = methods.problem(rng, name, nmin=700 if large else 4, nmax=1200 if large else 50, dmax=3 if large else 4)
    feats = [j for j in range(X.shape[1]) if methods.valid_feature(X, L, j)]
    use_jac = name in ("dpdp", "rhale") and (rng.random() < 0.7 or not model.smooth)
    given = model.jac(X) if name == "rhale" and rng.random() < 0.3 else None

    def new():
        m = Faulty(model)
        return m, methods.make(name, X, m, lim, jac=m.jac if use_jac else None, effect=given)
    return name, X, kk, f, model, lim, how, L, feats, new


def scen_failure(ctx, rng, large=False):
    name, X, kk, f, model, lim, how, L, feats, new = start_global(ctx, rng, large)
    hist = history(rng, name, X, L, feats, 0 if large else int(rng.integers(0, 4)))
    (m, fe), (_, twin), (mc, count) = new(), new(), new()
    for o in (fe, twin, count):
        apply(o, hist)
    d, op = ops_global(rng, name, f, X, L)
    if large and name in ("pdp", "dpdp"):
        xl = np.linspace(L[0, f], L[1, f], int(rng.integers(100, 200)))
        d, op = [("fit(%d, zero_integral)" % f, lambda o: o.fit(f, centering="zero_integral")),
                 ("eval(%d, %d points)" % (f, len(xl)), lambda o: o.eval(f, xl, heterogeneity=True))][int(rng.integers(2))]
        ctx.ev("large_queries")
    mc.arm(None, None)
    r = outcome(lambda: op(count))
    figs.take()
    if mc.calls == 0:
        raise Skip("the request does not query the model")
    at = int(rng.choice([1, mc.calls, rng.integers(1, mc.calls + 1)]))
    exc = pick_exc(rng)
    what = "%s: %s, %s at call %d of %d" % (name, d, type(exc).__name__, at, mc.calls)
    if r[0] == "refused" and isinstance(exc, AssertionError):
        exc = Boom("injected")
    m.arm(at, exc)
    expect(ctx, exc, lambda: op(fe), what)
    ctx.check(m.raised == 1, "call-count", lambda: what + ": the model was not called as often as before")
    m.arm(None, None)
    questions(ctx, rng, name, X, L, f, feats, fe, twin, 1e-12 * float(np.abs(model(X)).max()), what)
    ctx.ev("injected")
    ctx.ev("jacobian_failures", m.jac_hit)
    ctx.ev("first_call", at == 1)
    ctx.ev("last_call", at == mc.calls)
    ctx.ev("later_call", at > 1)
    ctx.ev("assertion_errors", isinstance(exc, AssertionError))
    ctx.ev("interrupts", isinstance(exc, KeyboardInterrupt))
    ctx.ev("plot_failures", d.startswith("plot"))
    ctx.ev("fitted_before" if hist else "unfitted_before")
    ctx.ev(name)
    ctx.case(method=name, n=len(X), d=X.shape[1], model=model.name, limits=how, history=[h for h, _ in hist], op=what, x0=float(X[0, f]))


def scen_invalid(ctx, rng):
    import effector as ef
    name, X, kk, f, model, lim, how, L, feats, new = start_global(ctx, rng)
    d = X.shape[1]
    hist = history(rng, name, X, L, feats, int(rng.integers(0, 4)))
    (_, fe), (_, twin) = new(), new()
    apply(fe, hist)
    apply(twin, hist)
    xs = gen.points(rng, L[0, f], L[1, f], t=3)
    bad_c = ["zero_mean", "", "Zero_start", 3, 1.0, None][int(rng.integers(6))]
    bad_f = [d, d + 5, "none", 1.5, None][int(rng.integers(5))]
    calls = [("eval centering=%r" % (bad_c,), lambda o: o.eval(f, xs, centering=bad_c)),
             ("fit centering=%r" % (bad_c,), lambda o: o.fit(f, centering=bad_c)),
             ("plot centering=%r" % (bad_c,), lambda o: o.plot(f, centering=bad_c)),
             ("eval feature=%r" % (bad_f,), lambda o: o.eval(bad_f, xs)),
             ("fit feature=%r" % (bad_f,), lambda o: o.fit(bad_f)),
             ("plot feature=%r" % (bad_f,), lambda o: o.plot(bad_f)),
             ("plot heterogeneity", lambda o: o.plot(f, heterogeneity="quantiles"))]
    if name in ("ale", "rhale"):
        huge = 10 ** 6
        bad_b = ["quantile", "", None, 3, "Greedy"][int(rng.integers(5))]
        calls += [("binning %r" % (bad_b,), lambda o: o.fit(f, binning_method=bad_b)), ("infeasible", lambda o: o.fit(f, binning_method=ef.Fixed(3, huge, 1)))] * 2
        calls += [("infeasible cat", lambda o: o.fit(f, binning_method=ef.Fixed(3, huge, huge)))]
    if name == "ale":
        calls += [("binning greedy", lambda o: o.fit(f, binning_method=["greedy", "dp", ef.Greedy(), ef.DynamicProgramming()][int(rng.integers(4))]))]
    if name == "rhale":
        calls += [("infeasible greedy", lambda o: o.fit(f, binning_method=ef.Greedy(5, huge, .3, 1))), ("infeasible dp", lambda o: o.fit(f, binning_method=ef.DynamicProgramming(5, huge, .3, 1)))]
    done = []
    for i in rng.permutation(len(calls))[:int(rng.integers(1, 4))]:
        w, fn = calls[int(i)]
        rejected(ctx, lambda: fn(fe), "%s: %s" % (name, w))
        done.append(w)
        ctx.ev("infeasible_binnings", w.startswith("infeasible"))
    questions(ctx, rng, name, X, L, f, feats, fe, twin, 1e-12 * float(np.abs(model(X)).max()), "%s: %s" % (name, done))
    # constructors
    k = int(rng.integers(6))
    if k == 0:
        rejected(ctx, lambda: methods.make(name, X[:, f], model, lim, jac=model.jac).eval(0, xs), "one-dimensional data")
    elif k == 1:
        rejected(ctx, lambda: methods.make(name, X[None], model, lim, jac=model.jac).eval(0, xs), "three-dimensional data")
    elif k == 2:
        bad = [3.5, "most", None, [3]][int(rng.integers(4))]
        rejected(ctx, lambda: methods.make(name, X, model, lim, jac=model.jac, nof=bad), "nof_instances=%r" % (bad,))
    elif k == 3:
        Z = X.copy()
        Z[:, f] = 2.5
        fc = methods.make(name, Z, model, jac=model.jac)
        rejected(ctx, lambda: fc.eval(f, np.array([2.5, 3.0]), centering=methods.CENTERINGS[int(rng.integers(4))]), "constant feature")
        ctx.ev("constant_features")
    elif k == 4:
        B = np.stack([L[1], L[0]])
        rejected(ctx, lambda: methods.make(name, X, model, B, jac=model.jac).eval(f, xs), "reversed limits")
    else:
        rejected(ctx, lambda: methods.make(name, X, model, L.T[:, :1] if d != 1 else L[0], jac=model.jac).eval(d - 1, xs), "limits of wrong shape")
    ctx.ev("rejected_constructors")
    ctx.ev(name)
    ctx.case(method=name, n=len(X), d=d, model=model.name, limits=how, history=[h for h, _ in hist], calls=done, k=k, x0=float(X[0, f]))


# ---------------------------------------------------------------------------------------------- regional
def shape_of(tree):
    if tree is None:
        return None
    return [(n.idx, n.level, n.name, n.data["nof_instances"], float(n.data["heterogeneity"])) for n in tree.nodes]


def regional_op(rng, name, X, f, kw, node):
    """A valid request: fit with options, eval or plot of a node."""
    r = rng.random()
    if r < 0.5:
        return "fit", lambda o: o.fit(f, **kw)
    xs = gen.points(rng, X[:, f].min(), X[:, f].max(), X[:, f], t=3, outside=False)
    c = methods.CENTERINGS[int(rng.integers(4))]
    if r < 0.8:
        return "eval", lambda o: o.eval(f, node, xs, heterogeneity=True, centering=c)
    return "plot", lambda o: o.plot(f, node, centering=c)


def regional_start(ctx, rng):
    name = methods.REGIONAL[int(rng.choice(5, p=[.26, .2, .24, .24, .06]))]
    X, kk, f, model = methods.regional_problem(rng, name, nmin=12, nmax=40, dmax=3)
    use_jac = name in ("rdpdp", "rrhale") and (rng.random() < 0.7 or not model.smooth)
    given = model.jac(X) if name == "rrhale" and rng.random() < 0.2 else None

    def new():
        m = Faulty(model)
        return m, methods.make(name, X, m, jac=m.jac if use_jac else None, effect=given)

    def options():
        kw = methods.regional_options(rng, name, X.shape[1])
        kw["nof_candidate_splits_for_numerical"] = int(rng.integers(2, 4))
        return kw
    return name, X, kk, f, model, new, options


def regional_questions(ctx, rng, X, f, fe, twin, atol, what, shap):
    ask_report = lambda o: _report(o, f)
    compare(ctx, outcome(lambda: ask_report(fe)), outcome(lambda: ask_report(twin)), atol, what + ", then the report")
    t = twin.tree_pruned.get("feature_%d" % f)
    a, b = shape_of(fe.tree_pruned.get("feature_%d" % f)), shape_of(t)
    ctx.check(a == b, "tree-after-failure", lambda: "%s: %r, an undisturbed object: %r" % (what, a, b))
    for node in ([0] if t is None else [n.idx for n in t.nodes][:3]):
        xs = gen.points(rng, X[:, f].min(), X[:, f].max(), X[:, f], t=3, outside=False)
        c = methods.CENTERINGS[int(rng.integers(4))]
        ask = lambda o: o.eval(f, node, xs, heterogeneity=True, centering=c)
        if shap and t is not None and node:
            continue
        compare(ctx, outcome(lambda: ask(fe)), outcome(lambda: ask(twin)), atol, "%s, then eval(%d, node %r)" % (what, f, node))


def _report(o, f):
    with methods.silent() as buf:
        o.show_partitioning(f)
        o.describe_subregions(f)
    # progress bars and timings do not go to standard output
    return buf.getvalue()


def scen_regional_failure(ctx, rng):
    name, X, kk, f, model, new, options = regional_start(ctx, rng)
    (m, fe), (_, twin), (mc, count) = new(), new(), new()
    kw0 = options() if rng.random() < 0.6 else None
    if kw0 is not None:
        for o in (fe, twin, count):
            r = outcome(lambda: o.fit(f, **kw0))
            if r[0] == "refused":
                raise Skip("refused")
    t = twin.tree_pruned.get("feature_%d" % f)
    node = int(rng.choice([n.idx for n in t.nodes])) if t is not None else 0
    d, op = regional_op(rng, name, X, f, options(), node)
    mc.arm(None, None)
    r = outcome(lambda: op(count))
    figs.take()
    if mc.calls == 0:
        raise Skip("the request does not query the model")
    at = int(rng.choice([1, mc.calls, rng.integers(1, mc.calls + 1)]))
    exc = pick_exc(rng)
    m.arm(at, exc)
    what = "%s: %s, %s at call %d of %d" % (name, d, type(exc).__name__, at, mc.calls)
    expect(ctx, exc, lambda: op(fe), what)
    m.arm(None, None)
    fitted = kw0 is not None
    regional_questions(ctx, rng, X, f, fe, twin, 1e-12 * float(np.abs(model(X)).max()), what, name == "rshap")
    ctx.ev("injected")
    ctx.ev("regional_search_failures", d == "fit")
    ctx.ev("regional_eval_failures", d != "fit")
    ctx.ev("jacobian_failures", m.jac_hit)
    ctx.ev("assertion_errors", isinstance(exc, AssertionError))
    ctx.ev("fitted_before" if fitted else "unfitted_before")
    ctx.ev(name)
    ctx.case(method=name, n=len(X), d=X.shape[1], model=model.name, first={k: str(v)[:30] for k, v in (kw0 or {}).items()}, op=what, x0=float(X[0, f]))


def scen_regional_invalid(ctx, rng):
    import effector as ef
    name, X, kk, f, model, new, options = regional_start(ctx, rng)
    d = X.shape[1]
    (_, fe), (_, twin) = new(), new()
    kw0 = options()
    if rng.random() < 0.7:
        for o in (fe, twin):
            if outcome(lambda: o.fit(f, **kw0))[0] == "refused":
                raise Skip("refused")
    t = twin.tree_pruned.get("feature_%d" % f)
    bad_c = ["zero_mean", "", "Zero_start", 3, 1.0, None][int(rng.integers(6))]
    bad_f = [d, d + 5, "none", 1.5, None][int(rng.integers(5))]
    bad_n = [-1, 99, "left", None, 0.5][int(rng.integers(5))]
    xs = gen.points(rng, X[:, f].min(), X[:, f].max(), t=3)
    node = 0
    calls = [("node %r" % (bad_n,), lambda o: o.eval(f, bad_n, xs)), ("plot node %r" % (bad_n,), lambda o: o.plot(f, bad_n)),
             ("eval centering %r" % (bad_c,), lambda o: o.eval(f, node, xs, centering=bad_c)), ("plot centering %r" % (bad_c,), lambda o: o.plot(f, node, centering=bad_c)),
             ("eval feature %r" % (bad_f,), lambda o: o.eval(bad_f, node, xs)), ("fit feature %r" % (bad_f,), lambda o: o.fit(bad_f)),
             ("plot feature %r" % (bad_f,), lambda o: o.plot(bad_f, node)), ("report feature %r" % (bad_f,), lambda o: o.show_partitioning(bad_f)),
             ("describe feature %r" % (bad_f,), lambda o: o.describe_subregions(bad_f)),
             ("min points", lambda o: o.fit(f, min_points_per_subregion=int(rng.integers(-1, 2)))),
             ("plot heterogeneity", lambda o: o.plot(f, node, heterogeneity="quantiles"))]
    live = not (methods.types_of(X, 10)[f] == "cat")
    if live:
        calls += [("depth", lambda o: o.fit(f, max_depth=d)), ("conditioning", lambda o: o.fit(f, candidate_conditioning_features=[d + 2]))]
        if name != "rale":
            calls += [("fit centering %r" % (bad_c,), lambda o: o.fit(f, centering=bad_c))] * 2
    if name in ("rale", "rrhale"):
        bad_b = ["quantile", "", None, 3, "Greedy"][int(rng.integers(5))]
        calls += [("binning %r" % (bad_b,), lambda o: o.fit(f, binning_method=bad_b))] * 2
        if name == "rale" and live:
            calls += [("binning greedy", lambda o: o.fit(f, binning_method=["greedy", "dp", ef.Greedy(), ef.DynamicProgramming()][int(rng.integers(4))]))]
    done = []
    for i in rng.permutation(len(calls))[:int(rng.integers(1, 4))]:
        w, fn = calls[int(i)]
        if w.startswith("depth") and len(X) < 10:
            continue
        rejected(ctx, lambda: fn(fe), "%s: %s" % (name, w))
        ctx.ev("unknown_nodes", "node" in w)
        done.append(w)
    regional_questions(ctx, rng, X, f, fe, twin, 1e-12 * float(np.abs(model(X)).max()), "%s: %s" % (name, done), name == "rshap")
    k = int(rng.integers(4))
    if k == 0:
        rejected(ctx, lambda: methods.make(name, X[:, f], model, jac=model.jac).fit(0), "one-dimensional data")
    elif k == 1:
        rejected(ctx, lambda: methods.make(name, X[None], model, jac=model.jac).fit(0), "three-dimensional data")
    elif k == 2:
        bad = [3.5, "most", None, [3]][int(rng.integers(4))]
        rejected(ctx, lambda: methods.make(name, X, model, jac=model.jac, nof=bad), "nof_instances=%r" % (bad,))
    ctx.ev(name)
    ctx.case(method=name, n=len(X), d=d, model=model.name, first={a: str(v)[:30] for a, v in kw0.items()}, calls=done, tree=t is not None, k=k, x0=float(X[0, f]))


def scen_indices(ctx, rng):
    import effector.interaction as inter
    n, d = int(rng.integers(4, 15)), int(rng.integers(2, 4))
    X, kk = gen.dataset(rng, n, d, [str(rng.choice(["uniform", "normal", "gap", "rounded"])) for _ in range(d)])
    if np.any(X.min(axis=0) == X.max(axis=0)):
        raise Skip("constant feature")
    model = gen.model(rng, X, ("interacting", "rough", "hash"))
    hi = rng.random() < 0.6

    def new():
        m = Faulty(model)
        return m, inter.HIndex(X, m, n) if hi else inter.REPID(X, m, None, n)
    (m, o), (_, twin), (mc, count) = new(), new(), new()
    f = int(rng.integers(d))
    i, j = [int(q) for q in rng.permutation(d)[:2]]
    ops = {"one": lambda q: q.eval_one_vs_all(f), "fit": lambda q: q.fit(), "plot": lambda q: q.plot()}
    if hi:
        ops["pair"] = lambda q: q.eval_pairwise(i, j)
    before = str(rng.choice(list(ops) + ["nothing"]))
    if before != "nothing" and rng.random() < 0.5:
        for q in (o, twin, count):
            outcome(lambda: ops[before](q))
            figs.take()
    d0 = str(rng.choice(list(ops)))
    mc.arm(None, None)
    outcome(lambda: ops[d0](count))
    figs.take()
    if mc.calls == 0:
        raise Skip("the request does not query the model")
    at = int(rng.choice([1, mc.calls, rng.integers(1, mc.calls + 1)]))
    exc = pick_exc(rng)
    m.arm(at, exc)
    what = "%s: %s, %s at call %d of %d" % (type(o).__name__, d0, type(exc).__name__, at, mc.calls)
    expect(ctx, exc, lambda: ops[d0](o), what)
    m.arm(None, None)
    for g in range(d):
        compare(ctx, outcome(lambda: np.array([o.eval_one_vs_all(g)])), outcome(lambda: np.array([twin.eval_one_vs_all(g)])), 1e-12, what + ", then one_vs_all(%d)" % g)
        if hi and g:
            compare(ctx, outcome(lambda: np.array([o.eval_pairwise(0, g)])), outcome(lambda: np.array([twin.eval_pairwise(0, g)])), 1e-12, what + ", then pairwise(0, %d)" % g)

    def draw(q):
        q.plot()
        return figs.take()
    compare(ctx, outcome(lambda: draw(o)), outcome(lambda: draw(twin)), 1e-12, what + ", then plot")
    ctx.ev("injected")
    ctx.ev("index_failures")
    ctx.ev("interrupts", isinstance(exc, KeyboardInterrupt))
    ctx.case(index=type(o).__name__, n=n, d=d, model=model.name, before=before, op=what, x0=float(X[0, 0]))


def scen_large(ctx, rng):
    """Failures during queries of about 100000 rows."""
    scen_failure(ctx, rng, large=True)


SCENARIOS = [("large", scen_large, 1), ("failure", scen_failure, 4), ("invalid", scen_invalid, 3), ("regional-failure", scen_regional_failure, 4), ("regional-invalid", scen_regional_invalid, 2),
             ("indices", scen_indices, 1)]
