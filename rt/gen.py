"""Workload generators: design matrices, black-box models, evaluation points, axis limits.

All models are evaluated row by row with element-wise arithmetic only (no BLAS), so that the value of a row
does not depend on the batch it is part of.
"""
import numpy as np

COLS = ["uniform", "normal", "skewed", "heavy", "gap", "rounded", "int_wide", "offset", "tiny", "cat_even",
        "cat_uneven", "binary", "spike"]
CONT = ["uniform", "normal", "skewed", "heavy", "gap", "offset", "tiny"]
DISCRETE = ["rounded", "int_wide", "cat_even", "cat_uneven", "binary", "spike"]


def column(rng, n, kind):
    if kind == "uniform":
        a = rng.normal() * 3
        c = a + rng.uniform(0, 1, n) * 10 ** rng.uniform(-1, 2)
    elif kind == "normal":
        c = rng.normal(size=n) * 10 ** rng.uniform(-1, 1) + rng.normal()
    elif kind == "skewed":
        c = np.exp(rng.normal(size=n) * rng.uniform(0.5, 1.5))
    elif kind == "heavy":
        c = rng.standard_t(2, size=n)
    elif kind == "gap":
        c = np.where(rng.random(n) < 0.5, rng.uniform(0, 1, n), rng.uniform(5, 6, n)) * rng.uniform(0.5, 3)
    elif kind == "rounded":
        c = np.round(rng.normal(size=n) * rng.uniform(1, 3), 1)
    elif kind == "int_wide":
        c = rng.integers(-50, 50, n).astype(float)
    elif kind == "offset":
        c = rng.uniform(0, 1, n) * 10 ** rng.uniform(-1, 1) + 10 ** rng.uniform(2, 5)
    elif kind == "tiny":
        c = rng.normal(size=n) * 10 ** rng.uniform(-6, -2)
    elif kind == "cat_even":
        c = rng.integers(0, rng.integers(3, 9), n).astype(float)
    elif kind == "cat_uneven":
        k = int(rng.integers(3, 9))
        vals = np.sort(rng.normal(size=k) * 3)
        c = vals[rng.integers(0, k, n)]
    elif kind == "binary":
        c = rng.integers(0, 2, n).astype(float)
    elif kind == "spike":
        c = np.where(rng.random(n) < 0.4, 0.0, rng.normal(size=n))
    elif kind == "constant":
        c = np.full(n, float(np.round(rng.normal(), 2)))
    else:
        raise ValueError(kind)
    return c


def dataset(rng, n, d, kinds=None, foi_kind=None, feature=None):
    """(N, D) design matrix and the list of kinds of its columns."""
    given = kinds is not None
    kinds = list(kinds) if given else [str(rng.choice(COLS)) for _ in range(d)]
    if foi_kind is not None:
        kinds[feature] = foi_kind
    X = np.stack([column(rng, n, k) for k in kinds], axis=1)
    if not given and d > 1 and rng.random() < 0.05:
        # every column holds the same values: equal limits, and equal sizes on either side of any position
        j = feature if foi_kind is not None else int(rng.integers(d))
        X = np.stack([X[:, j] if k == j else rng.permutation(X[:, j]) for k in range(d)], axis=1)
        kinds = [kinds[j]] * d
    if rng.random() < 0.15:
        # ordered instances: the first ones are no sample of the rest
        j = int(rng.integers(d))
        order = np.argsort(X[:, j], kind="stable")
        X = X[order if rng.random() < 0.5 else order[::-1]].copy()
        if rng.random() < 0.3:
            X[:n // 2, j] = X[0, j]
    return X, kinds


def pick_n(rng, lo=2, hi=400, big=0.04, huge=0.0):
    """Log-uniform between lo and hi; now and then far larger, where hi tells that this is affordable."""
    if huge and rng.random() < huge:
        # half of them next to a multiple of a power of two or of ten, where batches begin
        step = int(rng.choice([256, 512, 1000, 1024, 2000, 2048, 4096, 5000, 8192, 10000]))
        k = int(rng.integers(-(-1000 // step), 20000 // step + 1))
        return int(rng.integers(3000, 20000)) if rng.random() < 0.5 else step * k + int(rng.integers(-1, 2))
    if hi >= 50 and rng.random() < big:
        return int(np.round(np.exp(rng.uniform(np.log(200), np.log(1500)))))
    return int(np.round(np.exp(rng.uniform(np.log(lo), np.log(hi)))))


# ---------------------------------------------------------------------------------------------- models
class Base:
    """A black box f: (N, D) -> (N,) with an analytic Jacobian where there is one."""
    name = "base"
    smooth = True

    def __init__(self, d):
        self.d = d

    def __call__(self, X):
        return self.f(np.asarray(X, dtype=float))

    def jac(self, X):
        return self.g(np.asarray(X, dtype=float))


class Hash(Base):
    """An arbitrary function: a uniform value derived from the exact bits of the row."""
    name = "hash"
    smooth = False

    def __init__(self, d, salt=0, scale=1.0):
        super().__init__(d)
        self.salt, self.scale = np.uint64(salt * 2654435761 + 12345), scale

    @staticmethod
    def _mix(h, v):
        h = (h ^ v) * np.uint64(0x9E3779B97F4A7C15)
        h ^= h >> np.uint64(29)
        h *= np.uint64(0xBF58476D1CE4E5B9)
        h ^= h >> np.uint64(32)
        return h

    def _h(self, X, extra=0):
        X = np.ascontiguousarray(X, dtype=float) + 0.0
        h = np.full(X.shape[0], self.salt + np.uint64(extra), dtype=np.uint64)
        for j in range(X.shape[1]):
            h = self._mix(h, np.ascontiguousarray(X[:, j]).view(np.uint64) + np.uint64(j))
        return (h >> np.uint64(11)).astype(float) / 2.0 ** 53

    def f(self, X):
        return (self._h(X) * 2 - 1) * self.scale

    def g(self, X):
        return np.stack([(self._h(X, 7 + j) * 2 - 1) * self.scale for j in range(X.shape[1])], axis=1)


class Terms(Base):
    """Sum of terms, each a coefficient times a product of univariate functions; every feature is divided by its
    own scale (m, s) first, so that large offsets stay harmless."""
    UNI = {
        "id": (lambda t: t, lambda t: np.ones_like(t)),
        "sq": (lambda t: t * t, lambda t: 2 * t),
        "sin": (np.sin, np.cos),
        "tanh": (np.tanh, lambda t: 1 - np.tanh(t) ** 2),
        "exp": (lambda t: np.exp(-t * t / 2), lambda t: -t * np.exp(-t * t / 2)),
        "relu": (lambda t: np.where(t > 0, t, 0.0), lambda t: np.where(t > 0, 1.0, 0.0)),
        "step": (lambda t: np.where(t > 0, 1.0, 0.0), lambda t: np.zeros_like(t)),
        "abs": (np.abs, np.sign),
    }
    SMOOTH = ("id", "sq", "sin", "tanh", "exp")

    def __init__(self, d, terms, loc, scale, const=0.0, name="terms", out_scale=1.0):
        super().__init__(d)
        self.terms, self.loc, self.scale, self.const, self.name = terms, loc, scale, const, name
        self.out_scale = out_scale
        self.smooth = all(u in self.SMOOTH for _, fs in terms for _, u in fs)

    def _z(self, X, j):
        return (X[:, j] - self.loc[j]) / self.scale[j]

    def f(self, X):
        y = np.full(X.shape[0], float(self.const))
        for c, fs in self.terms:
            t = np.full(X.shape[0], float(c))
            for j, u in fs:
                t = t * self.UNI[u][0](self._z(X, j))
            y = y + t
        return y * self.out_scale

    def g(self, X):
        J = np.zeros((X.shape[0], self.d))
        for c, fs in self.terms:
            for j, u in fs:
                t = np.full(X.shape[0], float(c)) * self.UNI[u][1](self._z(X, j)) / self.scale[j]
                for j2, u2 in fs:
                    if j2 != j:
                        t = t * self.UNI[u2][0](self._z(X, j2))
                J[:, j] += t
        return J * self.out_scale


def _locscale(X):
    loc = X.mean(axis=0)
    sc = X.std(axis=0)
    return loc, np.where(sc > 0, sc, 1.0)


def linear(rng, X):
    d = X.shape[1]
    loc, sc = _locscale(X)
    return Terms(d, [(float(rng.normal()), [(j, "id")]) for j in range(d)], loc, sc, float(rng.normal()), "linear")


def additive(rng, X, smooth=True):
    d = X.shape[1]
    loc, sc = _locscale(X)
    us = Terms.SMOOTH if smooth else tuple(Terms.UNI)
    terms = []
    for j in range(d):
        for _ in range(int(rng.integers(1, 3))):
            terms.append((float(rng.normal()), [(j, str(rng.choice(us)))]))
    return Terms(d, terms, loc, sc, float(rng.normal()), "additive")


def interacting(rng, X, smooth=True, foi=None):
    d = X.shape[1]
    loc, sc = _locscale(X)
    us = Terms.SMOOTH if smooth else tuple(Terms.UNI)
    terms = [(float(rng.normal()), [(j, str(rng.choice(us)))]) for j in range(d)]
    for _ in range(int(rng.integers(1, 4))):
        k = min(d, int(rng.integers(2, 4)))
        js = rng.choice(d, size=k, replace=False)
        if foi is not None and foi not in js:
            js[0] = foi
        terms.append((float(rng.normal() * 2), [(int(j), str(rng.choice(us))) for j in js]))
    return Terms(d, terms, loc, sc, float(rng.normal()), "interacting")


def gated(rng, X, foi, gate, cut=None, cat=None):
    """x_foi with a slope that flips with the side of x_gate (smooth inside each side)."""
    d = X.shape[1]
    loc, sc = _locscale(X)
    return Gated(d, loc, sc, foi, gate, cut, cat, float(rng.uniform(1, 5)), float(rng.normal()))


class Gated(Base):
    name = "gated"
    smooth = True

    def __init__(self, d, loc, sc, foi, gate, cut, cat, a, b):
        super().__init__(d)
        self.loc, self.sc, self.foi, self.gate, self.cut, self.cat, self.a, self.b = loc, sc, foi, gate, cut, cat, a, b

    def _s(self, X):
        on = X[:, self.gate] == self.cat if self.cat is not None else X[:, self.gate] > self.cut
        return np.where(on, 1.0, -1.0)

    def f(self, X):
        y = self.a * self._s(X) * (X[:, self.foi] - self.loc[self.foi]) / self.sc[self.foi]
        for j in range(self.d):
            if j != self.foi:
                y = y + self.b * np.sin((X[:, j] - self.loc[j]) / self.sc[j])
        return y

    def g(self, X):
        J = np.zeros((X.shape[0], self.d))
        for j in range(self.d):
            if j != self.foi:
                J[:, j] = self.b * np.cos((X[:, j] - self.loc[j]) / self.sc[j]) / self.sc[j]
        J[:, self.foi] = self.a * self._s(X) / self.sc[self.foi]
        return J


class Column(Base):
    """One feature, handed back as it is: the output is a view into the query."""
    name = "column"

    def __init__(self, d, j):
        super().__init__(d)
        self.j = j

    def f(self, X):
        return X[:, self.j]

    def g(self, X):
        return np.broadcast_to(np.eye(self.d)[self.j], X.shape).copy()


def model(rng, X, kinds=("linear", "additive", "interacting", "rough", "hash"), foi=None):
    k = str(rng.choice(kinds))
    if rng.random() < 0.05 and "linear" in kinds:
        return Column(X.shape[1], int(rng.integers(X.shape[1])) if foi is None or rng.random() < 0.3 else foi)
    if k == "linear":
        return linear(rng, X)
    if k == "additive":
        return additive(rng, X)
    if k == "interacting":
        return interacting(rng, X, foi=foi)
    if k == "rough":
        return interacting(rng, X, smooth=False, foi=foi)
    if k == "hash":
        return Hash(X.shape[1], int(rng.integers(1000)), float(10 ** rng.uniform(-1, 3)))
    raise ValueError(k)


class Scaled(Base):
    def __init__(self, inner, a, b=0.0):
        super().__init__(inner.d)
        self.inner, self.a, self.b, self.smooth, self.name = inner, a, b, inner.smooth, inner.name + "*"

    def f(self, X):
        return self.inner.f(X) * self.a + self.b

    def g(self, X):
        return self.inner.g(X) * self.a


def arranged(y, how):
    """The same array, laid out in memory as given, column by column, backwards, or as every other element of another."""
    if how == 1:
        return np.asfortranarray(y)
    if how == 2:
        return y[::-1].copy()[::-1]
    if how == 3:
        return np.repeat(y, 2, axis=0)[::2]
    return y


class Probe:
    """Wraps a black box: records every query and checks that it is a legitimate one."""

    def __init__(self, model, keep=True, jac=False, limit=4_000_000):
        self.model, self.keep, self.jac = model, keep, jac
        self.queries, self.calls, self.rows, self.bad = [], 0, 0, []
        self.limit = limit

    def __call__(self, X):
        self.calls += 1
        if not isinstance(X, np.ndarray) or X.ndim != 2 or X.shape[1] != self.model.d:
            self.bad.append("query is not an (n, %d) array: %r" % (self.model.d, getattr(X, "shape", type(X))))
        elif not np.all(np.isfinite(X)):
            self.bad.append("query with a non-finite value")
        elif X.dtype.kind != "f":
            self.bad.append("query of dtype %s" % X.dtype)
        self.rows += len(X)
        if self.keep and self.rows * self.model.d < self.limit:
            self.queries.append(np.array(X, dtype=float, copy=True))
        return arranged(self.model.jac(X) if self.jac else self.model(X), self.calls % 4)

    def reset(self):
        self.queries, self.calls, self.rows, self.bad = [], 0, 0, []

    def all_rows(self):
        return np.concatenate(self.queries, axis=0) if self.queries else np.zeros((0, self.model.d))


# ------------------------------------------------------------------------------------ points and limits
def points(rng, lo, hi, data_col=None, t=None, outside=True):
    """Evaluation points: unsorted, repeated, inside, outside and exactly on the range and on data values."""
    if t is None:
        t = int(rng.integers(200, 1500)) if data_col is not None and len(data_col) <= 300 and rng.random() < 0.02 \
            else pick_n(rng, 1, 60)
    w = hi - lo
    out = []
    for _ in range(t):
        r = rng.random()
        if r < 0.5:
            out.append(lo + w * rng.random())
        elif r < 0.6:
            out.append(lo)
        elif r < 0.7:
            out.append(hi)
        elif r < 0.8 and data_col is not None:
            out.append(float(rng.choice(data_col)))
        elif r < 0.9 and outside:
            out.append(lo - w * rng.random() if rng.random() < 0.5 else hi + w * rng.random())
        elif out:
            out.append(out[int(rng.integers(len(out)))])
        else:
            out.append(lo + w / 3)
    return np.array(out, dtype=float)


def limits(rng, X, how=None):
    """Axis limits: None (from the data), wider, narrower, or exactly on data values."""
    how = how or str(rng.choice(["none", "none", "narrow", "wide", "ondata"]))
    if how == "none":
        return None, how
    lo, hi = X.min(axis=0), X.max(axis=0)
    w = np.where(hi > lo, hi - lo, 1.0)
    if how == "wide":
        return np.stack([lo - w * rng.uniform(0, 0.5, len(w)), hi + w * rng.uniform(0, 0.5, len(w))]), how
    if how == "narrow":
        return np.stack([lo + w * rng.uniform(0.02, 0.3, len(w)), hi - w * rng.uniform(0.02, 0.3, len(w))]), how
    out = np.stack([lo, hi]).astype(float)
    for j in range(X.shape[1]):
        u = np.unique(X[:, j])
        if len(u) >= 6:
            out[:, j] = u[len(u) // 6], u[-1 - len(u) // 6]
            if rng.random() < 0.4:                       # just beside the value: it is in, or out
                by = 10.0 ** rng.uniform(-13, -7) * (out[1, j] - out[0, j]) * rng.choice([-1, 1], 2)
                ulp = rng.random(2) < 0.4
                out[:, j] = np.where(ulp, np.nextafter(out[:, j], np.sign(by) * np.inf), out[:, j] + by)
    return out, how


def full_limits(X, lim):
    return np.stack([X.min(axis=0), X.max(axis=0)]) if lim is None else np.asarray(lim, dtype=float)


def in_range(X, lim, f):
    return (X[:, f] >= lim[0, f]) & (X[:, f] <= lim[1, f])


ODD_NAMES = ["a <= b", "x | y", "p and q", "100%", "{0}", "%d", "feature_1", "Level 1", "No splits", "weight == 1", "température", "x  > 0.5", "1.00", "nan", "None", "id: 3"]


def names(rng, d, plain):
    """Feature names: the caller's plain ones, default-like ones on other features, or ones that look like parts of names and reports."""
    r = rng.random()
    if r < 0.5:
        return plain
    if r < 0.7:
        return ["x_%d" % j for j in rng.permutation(d)]
    return [ODD_NAMES[int(k)] for k in rng.permutation(len(ODD_NAMES))[:d]] if d <= len(ODD_NAMES) else plain
