"""Uniform construction, fitting and evaluation of the five global and five regional methods."""
import contextlib
import io
import os
import sys
import numpy as np
from rt import gen
from rt.harness import Skip

GLOBAL = ["pdp", "dpdp", "ale", "rhale", "shap"]
REGIONAL = ["rpdp", "rdpdp", "rale", "rrhale", "rshap"]
FAST = ["pdp", "dpdp", "ale", "rhale"]
CENTERINGS = [False, True, "zero_start", "zero_integral"]
REFUSALS = ("mpossible", "Too few")


def make(name, X, model, lim=None, jac=None, effect=None, nof="all", names=None, target=None, avg=None, types=None, cat=10):
    import effector as ef
    common = dict(nof_instances=nof, feature_names=names, target_name=target)
    glob = dict(common, axis_limits=lim, avg_output=avg)
    reg = dict(common, axis_limits=lim, feature_types=types, cat_limit=cat)
    if name == "pdp":
        return ef.PDP(X, model, **glob)
    if name == "dpdp":
        return ef.DerPDP(X, model, jac, **glob)
    if name == "ale":
        return ef.ALE(X, model, **glob)
    if name == "rhale":
        return ef.RHALE(X, model, jac, data_effect=effect, **glob)
    if name == "shap":
        return ef.ShapDP(X, model, **glob)
    if name == "rpdp":
        return ef.RegionalPDP(X, model, **reg)
    if name == "rdpdp":
        return ef.RegionalDerPDP(X, model, jac, **reg)
    if name == "rale":
        return ef.RegionalALE(X, model, **reg)
    if name == "rrhale":
        return ef.RegionalRHALE(X, model, jac, instance_effects=effect, **reg)
    if name == "rshap":
        return ef.RegionalShapDP(X, model, **reg)
    raise ValueError(name)


def binning(rng, name, small=False):
    """A random binning option of ALE / RHALE (value, description)."""
    import effector as ef
    cat = int(rng.integers(2, 12)) if rng.random() < 0.95 else 0
    k = int(rng.integers(5)) if name in ("rhale", "rrhale") else int(rng.integers(2))
    if k == 0:
        return "fixed", "fixed"
    if k == 1:
        nb = int(rng.integers(1, 25)) if small or rng.random() < 0.96 else int(rng.integers(250, 500))
        return ef.Fixed(nb, 0, cat), "Fixed(%d,0,%d)" % (nb, cat)
    if k == 2:
        return "greedy", "greedy"
    if k == 3:
        nb, mp = int(rng.integers(2, 40)), int(rng.choice([0, 2, 5]))
        return ef.Greedy(nb, mp, 0.3, cat), "Greedy(%d,%d,.3,%d)" % (nb, mp, cat)
    nb, mp = int(rng.integers(1, 9)), int(rng.choice([0, 2, 5]))
    return ef.DynamicProgramming(nb, mp, 0.3, cat), "DP(%d,%d,.3,%d)" % (nb, mp, cat)


def fit_options(rng, name):
    """Random options of fit of a global method (kwargs, description)."""
    c = CENTERINGS[int(rng.integers(4))]
    kw, desc = {"centering": c}, "c=%s" % c
    if name in ("ale", "rhale"):
        b, bd = binning(rng, name)
        kw["binning_method"] = b
        desc += " " + bd
    elif rng.random() < 0.5:
        kw["points_for_centering"] = int(rng.integers(5, 60))
        desc += " p=%d" % kw["points_for_centering"]
    if name in ("pdp", "dpdp") and rng.random() < 0.3:
        kw["use_vectorized"] = bool(rng.random() < 0.5)
    return kw, desc


def regional_options(rng, name, d, depth=None):
    kw = {"max_depth": int(depth if depth is not None else rng.choice([1, 2, 3], p=[.45, .45, .1])),
          "nof_candidate_splits_for_numerical": int(rng.integers(2, 8)),
          "min_points_per_subregion": int(rng.integers(2, 12)),
          "heter_pcg_drop_thres": float(rng.choice([0.0, 0.05, 0.1, 0.3])),
          "heter_small_enough": float(rng.choice([0.0, 0.01, 0.1])),
          "split_categorical_features": bool(rng.random() < 0.7)}
    if name in ("rale", "rrhale"):
        kw["binning_method"] = binning(rng, name)[0]
    elif rng.random() < 0.3:
        kw["points_for_centering"] = int(rng.integers(2, 60))
    if name != "rale" and rng.random() < 0.5:
        kw["centering"] = CENTERINGS[int(rng.integers(4))]
    kw["max_depth"] = min(kw["max_depth"], d - 1)
    return kw


@contextlib.contextmanager
def refusals_skip():
    """An infeasible binning is a legitimate answer; the case is then out of the domain."""
    try:
        yield
    except AssertionError as e:
        if any(r in str(e) for r in REFUSALS):
            raise Skip("no binning: " + str(e)[:40])
        raise


def refused(e):
    return isinstance(e, AssertionError) and any(r in str(e) for r in REFUSALS)


def valid_feature(X, L, f):
    """The feature varies, the limits are proper, and some variation is in range."""
    k = gen.in_range(X, L, f)
    return L[0, f] < L[1, f] and k.sum() >= 2 and len(np.unique(X[k, f])) >= 2


def grid(X):
    """Round every column to a grid: shap itself takes values that agree to 5 digits for equal."""
    top = np.max(np.abs(X), axis=0)
    step = 2.0 ** np.ceil(np.log2(np.where(top > 0, top, 1.0) * 1e-4))
    return np.round(X / step) * step


def wide(rng, dmin, dmax, name="", p=0.04, most=20, deep=0.2):
    """A number of features; now and then more than ten of them, where that is affordable."""
    if dmax >= 3 and not name.endswith("shap") and rng.random() < p:
        u = rng.random()
        if u < deep and most > 20:
            return int(rng.integers(21, 41)) if rng.random() < 0.7 else int(rng.integers(41, most + 1))
        return int(rng.integers(10, 15)) if u < 0.7 else int(rng.integers(15, 21))
    return int(rng.integers(dmin, dmax + 1))


def problem(rng, name, nmax=120, dmax=4, dmin=1, smooth=False, kinds=None, how=None, model_kinds=None, nmin=4, wide_p=0.04, deep=0.2):
    """X, kinds, f, model, limits (or None), how, full limits."""
    if name.endswith("shap"):
        nmax, dmax = min(nmax, 40), min(dmax, 3)
        # shap itself takes a feature for constant when its values agree to 5 digits
        kinds = [k for k in (kinds or gen.COLS) if k not in ("offset", "tiny")]
    d = wide(rng, dmin, dmax, name, wide_p, 60 if name in ("pdp", "ale", "rhale") else 20, deep)
    n = gen.pick_n(rng, nmin, nmax)
    X, kk = gen.dataset(rng, n, d, [str(rng.choice(kinds)) for _ in range(d)] if kinds else None)
    X = grid(X) if name.endswith("shap") else X
    f = int(rng.integers(d)) if d < 10 or rng.random() < 0.4 else int(rng.integers(9, d))
    lim, how = gen.limits(rng, X, how)
    L = gen.full_limits(X, lim)
    if not valid_feature(X, L, f):
        raise Skip("degenerate feature")
    mk = model_kinds or (("linear", "additive", "interacting") if smooth else ("linear", "additive", "interacting", "rough", "hash"))
    return X, kk, f, gen.model(rng, X, mk, foi=f), lim, how, L


def confusable(rng, ok):
    """With ten features and more, mostly stay among those whose numbers begin alike."""
    few = [j for j in ok if j in (0, 1, 10, 11, 12)]
    return few if max(ok) >= 10 and len(few) > 1 and rng.random() < 0.8 else ok


@contextlib.contextmanager
def silent():
    """Standard output of the library, captured."""
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(io.StringIO()):
        yield buf


def warm():
    """Compile shap's kernels once, before the workers are forked."""
    import effector
    X = np.arange(12.0).reshape(6, 2) % 5
    fe = effector.ShapDP(X, lambda Z: Z[:, 0] * Z[:, 1], nof_instances="all")
    fe.fit(0)


class Nested(gen.Base):
    """The slope in the feature of interest depends on several gates, so that several levels pay off."""
    name = "nested"
    smooth = True

    def __init__(self, d, loc, sc, foi, gates, amps, b):
        super().__init__(d)
        self.loc, self.sc, self.foi, self.gates, self.amps, self.b = loc, sc, foi, gates, amps, b

    def _slope(self, X):
        s = np.ones(len(X))
        for (j, kind, at), a in zip(self.gates, self.amps):
            on = X[:, j] == at if kind == "cat" else X[:, j] > at
            s = s + np.where(on, a, -a)
        return s

    def f(self, X):
        y = self._slope(X) * (X[:, self.foi] - self.loc[self.foi]) / self.sc[self.foi]
        for j in range(self.d):
            if j != self.foi:
                y = y + self.b * np.sin((X[:, j] - self.loc[j]) / self.sc[j])
        return y

    def g(self, X):
        J = np.zeros((len(X), self.d))
        for j in range(self.d):
            if j != self.foi:
                J[:, j] = self.b * np.cos((X[:, j] - self.loc[j]) / self.sc[j]) / self.sc[j]
        J[:, self.foi] = self._slope(X) / self.sc[self.foi]
        return J


def nested(rng, X, foi):
    d = X.shape[1]
    loc, sc = gen._locscale(X)
    others = [int(j) for j in rng.permutation(d) if j != foi]
    gates = []
    for j in others[:max(1, int(rng.integers(1, 4)))]:
        u = np.unique(X[:, j])
        if len(u) < 10 and rng.random() < 0.6:
            gates.append((j, "cat", float(rng.choice(u))))
        else:
            gates.append((j, "num", float(np.quantile(X[:, j], rng.uniform(0.25, 0.75)))))
    amps = [float(rng.uniform(2, 6)) / (k + 1) for k in range(len(gates))]
    return Nested(d, loc, sc, foi, gates, amps, float(rng.normal()))


class Parity(Nested):
    """Some gates pay off only together: the slope depends on the parity of two of them."""
    name = "parity"

    def __init__(self, d, loc, sc, foi, gates, amps, b, pair):
        super().__init__(d, loc, sc, foi, gates, amps, b)
        self.pair = pair

    def _slope(self, X):
        s = super()._slope(X)
        (g1, g2), a = self.pair
        on = [X[:, j] == at if kind == "cat" else X[:, j] > at for j, kind, at in (g1, g2)]
        return s + np.where(on[0] == on[1], a, -a)


def parity(rng, X, foi):
    """Slope: one plain gate (or none) and the parity of two others, of random strengths."""
    d = X.shape[1]
    loc, sc = gen._locscale(X)
    gates = []
    for j in [int(j) for j in rng.permutation(d) if j != foi][:3]:
        u = np.unique(X[:, j])
        gates.append((j, "cat", float(rng.choice(u))) if len(u) < 10 else (j, "num", float(np.quantile(X[:, j], rng.uniform(0.4, 0.6)))))
    plain = gates[2:]
    return Parity(d, loc, sc, foi, plain, [float(rng.uniform(1, 12)) for _ in plain], float(rng.normal()), (gates[:2], float(rng.uniform(1, 5))))


def deep_problem(rng, nmin=40, nmax=300):
    """Four or five features, most of them with few values, and models that reward three levels of splits."""
    d = int(rng.integers(4, 6))
    n = gen.pick_n(rng, nmin, nmax)
    f = int(rng.integers(d))
    kinds = [str(rng.choice(["binary", "binary", "cat_even", "uniform", "normal"])) for _ in range(d)]
    kinds[f] = str(rng.choice(["uniform", "normal"]))
    X, kk = gen.dataset(rng, n, d, kinds)
    r = rng.random()
    return X, kk, f, parity(rng, X, f) if r < 0.7 else nested(rng, X, f)


def factorial_problem(rng):
    """A full factorial design of four or five gates, so that the tree can be four or five levels deep with instances everywhere."""
    m = int(rng.choice([4, 5], p=[0.7, 0.3]))
    reps = int(rng.integers(2, 5 if m == 4 else 3))
    bits = np.array([[(k >> j) & 1 for j in range(m)] for k in range(2 ** m)], dtype=float)
    G = np.repeat(bits, reps, axis=0)
    for j in range(m):
        if rng.random() < 0.6:
            G[:, j] += rng.uniform(0, 0.3, len(G))
        G[:, j] = G[:, j] * float(rng.uniform(0.5, 20)) + float(rng.normal() * 10)
    f = int(rng.integers(m + 1))
    X = np.insert(G, f, rng.normal(size=len(G)), axis=1)[rng.permutation(len(G))]
    loc, sc = gen._locscale(X)
    gates = [(int(j), "num", float((X[:, j].min() + X[:, j].max()) / 2)) for j in rng.permutation(m + 1) if j != f]
    amps = [float(rng.uniform(2, 4)) * 0.6 ** k for k in range(m)]
    return X, ["factorial"] * (m + 1), f, Nested(m + 1, loc, sc, f, gates, amps, float(rng.normal()))


def factorial_options(d):
    return {"max_depth": d - 1, "nof_candidate_splits_for_numerical": 1, "min_points_per_subregion": 2, "heter_small_enough": 0.0,
            "heter_pcg_drop_thres": 0.0}


def regional_problem(rng, name, nmin=10, nmax=90, dmin=2, dmax=4, kinds=None):
    """X, kinds, f, model for a regional method: mostly models whose interactions make splits worthwhile."""
    if name == "rshap":
        nmax, dmax = nmax if nmin > 100 else min(nmax, 32), min(dmax, 3)
        kinds = [k for k in (kinds or gen.COLS) if k not in ("offset", "tiny")]
    d = wide(rng, dmin, dmax, name)
    n = gen.pick_n(rng, nmin, nmax, big=0.04 if d < 6 else 0)
    X, kk = gen.dataset(rng, n, d, [str(rng.choice(kinds)) for _ in range(d)] if kinds else None)
    X = grid(X) if name.endswith("shap") else X
    f = int(rng.integers(d)) if d < 10 or rng.random() < 0.4 else int(rng.integers(9, d))
    if X[:, f].min() == X[:, f].max():
        raise Skip("constant feature")
    r = rng.random()
    if r < 0.6:
        model = nested(rng, X, f)
    else:
        model = gen.model(rng, X, ("interacting", "rough", "hash", "additive"), foi=f)
    return X, kk, f, model


def types_of(X, cat):
    return ["cat" if len(np.unique(X[:, j])) < cat else "cont" for j in range(X.shape[1])]


def path_mask(X, node):
    """The rows of X that satisfy the conditions on the path from the root to the node."""
    m = np.ones(len(X), dtype=bool)
    while node.parent_node is not None:
        x, p = X[:, node.data["feature"]], node.data["position"]
        m &= {"<=": lambda: x <= p, ">": lambda: x > p, "==": lambda: x == p, "!=": lambda: x != p}[node.data["comparison"]]()
        node = node.parent_node
    return m
