"""C25: objects are independent of each other, and using them leaves the process as it was."""
import contextlib
import copy
import io
import json
import logging
import os
import pickle
import random
import signal
import subprocess
import sys
import tempfile
import threading
import time
import warnings
import numpy as np
from rt import gen, methods, figs
from rt.harness import Skip, Violation
from rt.props.c08 import outcome, agree, plot_request, scale

START = {}
IMPORT = """
import json, os, sys, warnings
sys.path[:0] = sys.argv[1:3]
import matplotlib.pyplot, scipy.interpolate, shap, tqdm, numpy
from rt.props.c25 import snapshot
assert "effector" not in sys.modules
warnings.filters[:] = [("default", None, Warning, None, 0)]
before = snapshot(sys.argv[3])
import effector
after = snapshot(sys.argv[3])
print("CHANGED " + json.dumps([k for k in before if before[k] != after[k]]))
"""


def WARM():
    """What importing effector changes, in a fresh interpreter; then as everywhere."""
    import matplotlib
    from rt import harness
    methods.warm()
    START["rc"] = dict(dict.items(matplotlib.rcParams))
    here = tempfile.mkdtemp(prefix="c25-")
    out = subprocess.run([sys.executable, "-W", "default", "-c", IMPORT, harness.HERE, harness.REPO, here], cwd=here,
                         capture_output=True, text=True, timeout=300)
    line = [l for l in out.stdout.splitlines() if l.startswith("CHANGED ")]
    if not line:
        raise RuntimeError("import in a fresh interpreter failed: " + out.stderr[-500:])
    START["import"] = json.loads(line[-1][8:])
    with contextlib.suppress(OSError):
        os.rmdir(here)


RULE = ("2..4 objects of random classes (sharing the data array, the model, both or nothing), each with a script of 3..7 requests; "
        "their answers when alone against those when the scripts are interleaved, run from inside each other's black box, or run "
        "in threads that switch within every model call; and, around every single call, a snapshot of the settings of the process; "
        "non-trivial: at least two objects whose requests really alternated")
CASES = {"quick": 560, "thorough": 8000}
REQUIRED = ["imports_watched", "interleaved_answers", "object_switches", "nested_runs", "thread_answers", "thread_switches", "snapshots_compared",
            "silent_calls", "figures_counted", "shared_data", "shared_model", "regional_objects", "index_objects", "global_objects",
            "shap_objects", "deleted_objects", "draws", "failed_calls", "shared_binnings", "same_model_other_data",
            "same_model_same_shape", "same_range_other_values", "twins_on_other_data", "twins_of_other_model", "twins_with_one_binning", "twin_answers", "processes_of_their_own"]
ASSUMPTIONS = ["all instances are used (nof_instances='all'), so no answer is random; black boxes are pure functions",
               "drawing a subsample or a subset of curves is documented to use numpy's random state; progress goes to standard error"]


# ------------------------------------------------------------------------------------------------ scripts
class Shared:
    """A binning method that the caller passes to several fits of several objects."""

    def __init__(self, rng):
        import effector as ef
        k = int(rng.integers(3))
        self.fixed = k == 0
        cat = int(rng.integers(2, 12))
        mp = int(rng.choice([0, 2, 5]))
        self.pristine = ef.Fixed(int(rng.integers(1, 25)), 0, cat) if k == 0 else ef.Greedy(int(rng.integers(2, 40)), mp, 0.3, cat) if k == 1 \
            else ef.DynamicProgramming(int(rng.integers(1, 9)), mp, 0.3, cat)
        self.uses = 0
        self.reset()

    def reset(self):
        self.now = copy.deepcopy(self.pristine)

    def fits(self, kind):
        return kind in ("rhale", "rrhale") or self.fixed and kind in ("ale", "rale")

    def use(self):
        self.uses += 1
        return self.now


class Actor:
    """An object of effector with a fixed script of requests."""

    def __init__(self, rng, kind, X, model, jac, f, lim=None, every_curve=True, shared=None):
        self.kind, self.X, self.model, self.jac, self.f, self.lim = kind, X, model, jac, f, lim
        self.d = X.shape[1]
        self.L = gen.full_limits(X, lim)
        self.o = None
        self.shared = shared
        self.script = self.write(rng, every_curve)
        self.answers = []
        self.atol = 1e-12 * float(np.abs(model(X)).max())

    def new(self, wrap=lambda m: m):
        from effector.interaction import HIndex, REPID
        m, j = wrap(self.model), wrap(self.jac) if self.jac is not None else None
        if self.kind == "hindex":
            return HIndex(self.X, m, "all")
        if self.kind == "repid":
            return REPID(self.X, m, None, "all")
        return methods.make(self.kind, self.X, m, self.lim, jac=j)

    def fitting(self, rng, f, kw):
        """A fit; now and then with the binning method that several objects share."""
        s = self.shared
        if s is not None and s.fits(self.kind) and rng.random() < 0.6:
            return lambda o: o.fit(f, **dict(kw, binning_method=s.use()))
        return lambda o: o.fit(f, **kw)

    def write(self, rng, every_curve=True):
        """The script: (name, function of the object)."""
        out = []
        k = self.kind
        fs = [j for j in range(self.d) if self.L[0, j] < self.L[1, j] and methods.valid_feature(self.X, self.L, j)]
        if k in ("hindex", "repid"):
            for _ in range(int(rng.integers(2, 4))):
                i, j = (int(v) for v in rng.permutation(self.d)[:2])
                if k == "hindex" and rng.random() < 0.6:
                    out.append(("pair", lambda o, i=i, j=j: o.eval_pairwise(i, j)))
                else:
                    out.append(("one", lambda o, i=i: o.eval_one_vs_all(i)))
            return out
        if k in methods.GLOBAL:
            for _ in range(int(rng.integers(3, 8))):
                f = int(rng.choice(fs if k != "shap" else [self.f]))
                r = rng.random()
                if r < 0.3:
                    kw = methods.fit_options(rng, k)[0]
                    out.append(("fit", self.fitting(rng, f, kw)))
                elif r < 0.8:
                    xs = gen.points(rng, self.L[0, f], self.L[1, f], t=int(rng.integers(1, 6)), outside=k != "shap")
                    kw = {"heterogeneity": bool(rng.random() < 0.5), "centering": methods.CENTERINGS[int(rng.integers(4))]}
                    out.append(("eval", lambda o, f=f, xs=xs, kw=kw: o.eval(f, xs, **kw)))
                elif r < 0.9:
                    kw = plot_request(rng, k)
                    if k in ("pdp", "dpdp") and not every_curve and rng.random() < 0.5:
                        kw["heterogeneity"], kw["nof_ice"] = "ice", int(rng.integers(1, len(self.X)))
                    out.append(("plot", lambda o, f=f, kw=kw: o.plot(f, **kw)))
                else:
                    xs = gen.points(rng, self.L[0, f], self.L[1, f], t=2)
                    out.append(("bad", lambda o, f=f, xs=xs: o.eval(f, xs, centering="zero_mean")))
            return out
        kw = methods.regional_options(rng, k, self.d)
        kw["nof_candidate_splits_for_numerical"] = min(3, kw["nof_candidate_splits_for_numerical"])
        kw["heter_small_enough"], kw["heter_pcg_drop_thres"] = 0.0, float(rng.choice([-1.0, 0.0]))
        kw["split_categorical_features"] = True
        f = self.f
        out.append(("fit", self.fitting(rng, f, kw)))
        for _ in range(int(rng.integers(2, 6))):
            r = rng.random()
            node = int(rng.choice([0, 0, 1, 2, 3], p=[.3, .2, .2, .2, .1]))
            if r < 0.6:
                xs = gen.points(rng, self.L[0, f], self.L[1, f], t=int(rng.integers(1, 5)), outside=k != "rshap")
                c = methods.CENTERINGS[int(rng.integers(4))]
                out.append(("eval", lambda o, xs=xs, c=c, node=node: o.eval(f, node, xs, centering=c)))
            elif r < 0.75:
                sl = [scale(rng) for _ in range(self.d)] if rng.random() < 0.6 else None
                out.append(("plot", lambda o, sl=sl, node=node: o.plot(f, node, scale_x_list=sl)))
            elif r < 0.9:
                which = "describe_subregions" if rng.random() < 0.5 else "show_partitioning"
                sl = [scale(rng) for _ in range(self.d)] if rng.random() < 0.5 else None
                out.append(("report", lambda o, which=which, sl=sl: getattr(o, which)(f, scale_x_list=sl)))
            else:
                out.append(("bad", lambda o, node=node: o.eval(f, 99, np.zeros(2))))
        return out


def step(o, name, fn):
    """One request: its answer (value, printed text or figures)."""
    with methods.silent() as buf:
        r = outcome(lambda: fn(o))
    if name == "plot":
        fg = figs.take()
        return (r[0], fg) if r[0] == "value" else r
    if name == "report":
        return (r[0], buf.getvalue()) if r[0] == "value" else r
    if name == "fit" and r[0] == "value":
        return ("value", None)
    return r


def alone(a):
    if a.shared is not None:
        a.shared.reset()
    o = a.new()
    return [step(o, n, fn) for n, fn in a.script]


def alone_apart(ctx, a):
    """The answers of an object that is the only one in its process (a forked copy of this one)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            signal.setitimer(signal.ITIMER_PROF, 60)
            os.close(r)
            data = pickle.dumps(alone(a))
            with os.fdopen(w, "wb") as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if status != 0:
        return alone(a)         # whatever went wrong happens here again, and is reported
    ctx.ev("processes_of_their_own")
    return pickle.loads(data)


def fresh_binning(actors):
    for a in actors:
        if a.shared is not None:
            a.shared.reset()


def sibling(rng, X):
    """Data of the same shape, whose columns have the same minimum and maximum as X's but other values in between."""
    Z = X.copy()
    for j in range(X.shape[1]):
        values = np.unique(X[:, j])
        inner = values[1:-1]
        if len(inner) == 0:
            continue
        lo, hi = int(np.argmin(X[:, j])), int(np.argmax(X[:, j]))
        k = rng.random()
        if k < 0.4:         # some of the values no longer occur
            keep = values[rng.random(len(values)) < 0.6]
            Z[:, j] = rng.choice(np.concatenate([keep, values[[0, -1]]]), len(X))
        elif k < 0.7:       # they occur elsewhere
            Z[:, j] = rng.permutation(X[:, j])
        else:               # some of them have moved
            moved = np.where(rng.random(len(values)) < 0.5, values, (values[0] + values) / 2)
            Z[:, j] = moved[np.searchsorted(values, X[:, j])]
        Z[lo, j], Z[hi, j] = values[0], values[-1]
        Z[:, j] = np.clip(Z[:, j], values[0], values[-1])
    return Z


def actor(rng, kinds, base=None, every_curve=True, shared=None):
    """An actor; base: an earlier one to share the data and maybe the model with."""
    kind = str(rng.choice(kinds))
    how = "own"
    small = kind in ("hindex", "repid") or kind.endswith("shap")
    if base is not None and rng.random() < 0.6 and not small and kind not in ("shap", "rshap"):
        X, model, how = base.X, base.model, "both"
        if rng.random() < 0.4:
            model, how = gen.model(rng, X, ("linear", "additive", "interacting", "hash")), "data"
        f = int(rng.integers(X.shape[1]))
        if kind in methods.REGIONAL and (X.shape[1] < 2 or len(X) < 10):
            kind = "pdp"
        if X[:, f].min() == X[:, f].max():
            raise Skip("constant feature")
    elif kind in methods.REGIONAL:
        X, kk, f, model = methods.regional_problem(rng, kind, nmin=14, nmax=24 if kind == "rshap" else 40, dmax=3)
    elif kind in methods.GLOBAL:
        X, kk, f, model, lim, _, L = methods.problem(rng, kind, nmax=16 if kind == "shap" else 40, dmax=3, how="none")
    else:
        d = int(rng.integers(2, 4))
        X, kk = gen.dataset(rng, gen.pick_n(rng, 4, 14), d)
        if np.any(np.ptp(X, axis=0) == 0):
            raise Skip("constant feature")
        f, model = 0, gen.model(rng, X)
    if base is not None and not small and not base.kind.endswith("shap") and rng.random() < 0.3 and (kind in methods.FAST or len(base.X) >= 14):
        # other data of the same shape and the same range: what two objects have in common is everything but the instances
        X, f, model, how = sibling(rng, base.X), base.f, base.model, "sibling"
        if X[:, f].min() == X[:, f].max() or (kind in methods.REGIONAL and X.shape[1] < 2):
            raise Skip("constant feature")
    elif how == "own" and base is not None and base.X.shape[1] == X.shape[1] and rng.random() < 0.6:
        # the same black box on other data, often of the same shape
        model, how = base.model, "model"
        m = len(base.X)
        if len(X) > m and not np.any(np.ptp(X[:m], axis=0) == 0) and (kind not in methods.REGIONAL or m >= 14):
            X = X[:m]
    lim = None
    if how == "sibling" and kind in methods.FAST and base.lim is not None:
        lim = base.lim if methods.valid_feature(X, gen.full_limits(X, base.lim), f) else None
    elif kind in methods.FAST and rng.random() < 0.3:
        lim, h = gen.limits(rng, X)
        if not methods.valid_feature(X, gen.full_limits(X, lim), f):
            lim = None
    jac = model.jac if kind in ("dpdp", "rhale", "rdpdp", "rrhale") and rng.random() < 0.75 else None
    return Actor(rng, kind, X, model, jac, f, lim, every_curve, shared), how


def cast(ctx, rng, kinds, k, every_curve=True):
    out = []
    shared = Shared(rng) if rng.random() < 0.6 else None
    for i in range(k):
        a, how = actor(rng, kinds, out[int(rng.integers(len(out)))] if out else None, every_curve, shared)
        out.append(a)
        ctx.ev("shared_data", how in ("both", "data"))
        ctx.ev("shared_model", how in ("both", "model", "sibling"))
        ctx.ev("same_model_other_data", how in ("model", "sibling"))
        ctx.ev("same_range_other_values", how == "sibling")
        ctx.ev("same_model_same_shape", how == "model" and any(b.model is a.model and b.X.shape == a.X.shape for b in out[:-1]))
        ctx.ev("regional_objects", a.kind in methods.REGIONAL)
        ctx.ev("global_objects", a.kind in methods.GLOBAL)
        ctx.ev("index_objects", a.kind in ("hindex", "repid"))
        ctx.ev("shap_objects", a.kind.endswith("shap"))
    return out


MIX = ["pdp"] * 3 + ["dpdp"] * 2 + ["ale"] * 3 + ["rhale"] * 3 + ["shap"] + ["rpdp"] * 2 + ["rdpdp", "rale", "rale", "rrhale", "rrhale", "hindex", "repid"]


def compare(ctx, actors, want, got, key, how):
    ctx.ev("shared_binnings", len({s.uses for s in [a.shared for a in actors if a.shared is not None] if s.uses > 1}))
    for i, (a, w, g) in enumerate(zip(actors, want, got)):
        ctx.atol = a.atol
        ctx.check(len(w) == len(g), key, "object %d answered %d of %d requests" % (i, len(g), len(w)))
        for k, (u, v) in enumerate(zip(w, g)):
            agree(ctx, v, u, key, "%s: request %d (%s) of object %d (%s, feature %d)" % (how, k, a.script[k][0], i, a.kind, a.f))
            ctx.ev("failed_calls", u[0] == "raise")


# ---------------------------------------------------------------------------------------------- scenarios
def scen_interleaved(ctx, rng):
    family = MIX if rng.random() < 0.7 else [["hindex", "repid"], ["repid"], ["pdp", "rpdp"], ["ale", "rale"], ["rhale", "rrhale"]][int(rng.integers(5))]
    actors = cast(ctx, rng, family, int(rng.integers(2, 5)))
    want = [alone_apart(ctx, a) for a in actors]
    fresh_binning(actors)
    at, objs, got, order = [0] * len(actors), {}, [[] for _ in actors], []
    early = rng.random() < 0.5
    if early:
        for i in rng.permutation(len(actors)):
            objs[int(i)] = actors[int(i)].new()
    while True:
        left = [i for i, a in enumerate(actors) if at[i] < len(a.script)]
        if not left:
            break
        i = int(rng.choice(left))
        if i not in objs:
            objs[i] = actors[i].new()
        name, fn = actors[i].script[at[i]]
        got[i].append(step(objs[i], name, fn))
        at[i] += 1
        order.append(i)
        if at[i] == len(actors[i].script) and rng.random() < 0.5:
            del objs[i]
            ctx.ev("deleted_objects")
    switches = sum(a != b for a, b in zip(order, order[1:]))
    compare(ctx, actors, want, got, "interleaved", "with other objects in between (%s)" % order)
    again = [alone(a) for a in actors]
    compare(ctx, actors, want, again, "later", "a new object, after others were used")
    ctx.ev("interleaved_answers", sum(map(len, got)))
    ctx.ev("object_switches", switches)
    ctx.case(nontrivial=switches >= 2, kinds=[a.kind for a in actors], scripts=[[n for n, _ in a.script] for a in actors], order=order,
             n=[len(a.X) for a in actors], early=early, x0=[float(a.X[0, 0]) for a in actors])


def twins(ctx, rng, kinds, k, every_curve=True):
    """Objects that are asked exactly the same and differ only in the instances, or only in the black box."""
    shared = Shared(rng)
    first, _ = actor(rng, kinds, None, every_curve, shared)
    actors = [first]
    for _ in range(k - 1):
        t = copy.copy(first)
        other_data = rng.random() < 0.7
        if other_data:
            t.X = sibling(rng, first.X)
        else:
            t.model = gen.model(rng, first.X, ("linear", "additive", "interacting", "hash") if first.kind in ("pdp", "ale") else ("linear", "additive", "interacting"))
            t.jac = t.model.jac if first.jac is not None else None
        t.atol = max(first.atol, 1e-12 * float(np.abs(t.model(t.X)).max()))
        t.answers = []
        if np.array_equal(t.X, first.X) and t.model is first.model:
            raise Skip("no difference")
        actors.append(t)
        ctx.ev("twins_on_other_data", other_data)
        ctx.ev("twins_of_other_model", not other_data)
    return actors


def scen_twins(ctx, rng):
    """The same requests to objects that are nearly the same."""
    kinds = MIX if rng.random() < 0.5 else ["ale", "rhale", "rale", "rrhale"]
    actors = twins(ctx, rng, kinds, int(rng.integers(2, 5)))
    first, shared = actors[0], actors[0].shared
    want = [alone_apart(ctx, a) for a in actors]
    fresh_binning(actors)
    objs = [a.new() for a in actors]
    got = [[] for _ in actors]
    for name, fn in first.script:
        for i in rng.permutation(len(actors)):
            got[int(i)].append(step(objs[int(i)], name, fn))
    compare(ctx, actors, want, got, "twins", "with objects asked the same in between")
    ctx.ev("twins_with_one_binning", shared.uses >= 2)
    differ = sum(any(str(u) != str(v) for u, v in zip(want[0], w)) for w in want[1:])
    ctx.ev("twin_answers", sum(map(len, got)))
    ctx.case(nontrivial=differ > 0, kind=first.kind, script=[n for n, _ in first.script], k=len(actors), n=len(first.X), x0=float(first.X[0, 0]),
             f=first.f, differ=differ)


def scen_nested(ctx, rng):
    """While one object computes, its black box uses another one."""
    regional = rng.random() < 0.4
    kinds = [k for k in MIX if k not in ("shap", "hindex", "repid") and (k in methods.REGIONAL or not regional)]
    a, b = twins(ctx, rng, kinds, 2) if rng.random() < 0.3 else cast(ctx, rng, kinds, 2)
    want = [alone_apart(ctx, a), alone_apart(ctx, b)]
    fresh_binning([a, b])
    inner, every, calls = [], int(rng.integers(1, 6)), [0]
    pending = list(b.script)
    ob = b.new()
    busy = [False]

    def wrap(m):
        def call(Z):
            y = m(Z)
            calls[0] += 1
            if pending and calls[0] % every == 0 and not busy[0]:
                busy[0] = True
                name, fn = pending.pop(0)
                inner.append(step(ob, name, fn))
                busy[0] = False
            return y
        return call
    oa = a.new(wrap)
    outer = []
    for name, fn in a.script:
        if name == "plot":          # the inner object's figures would be mixed with the outer one's
            keep, pending[:] = list(pending), []
            outer.append(step(oa, name, fn))
            pending[:] = keep
        else:
            outer.append(step(oa, name, fn))
    done = len(inner)
    while pending:
        name, fn = pending.pop(0)
        inner.append(step(ob, name, fn))
    compare(ctx, [a, b], want, [outer, inner], "nested", "with another object used from the black box")
    ctx.ev("nested_runs", done)
    ctx.case(nontrivial=done > 0, outer=a.kind, inner=b.kind, done=done, every=every, scripts=[[n for n, _ in c.script] for c in (a, b)],
             n=[len(a.X), len(b.X)], x0=[float(a.X[0, 0]), float(b.X[0, 0])])


def scen_threads(ctx, rng):
    """Different objects in different threads."""
    regional = rng.random() < 0.35
    kinds = [k for k in MIX if not k.endswith("shap") and (k in methods.REGIONAL or not regional)]
    actors = (twins if rng.random() < 0.3 else cast)(ctx, rng, kinds, int(rng.integers(2, 5)))
    for a in actors:
        a.script = [(n, fn) for n, fn in a.script if n in ("fit", "eval", "bad", "pair", "one")]
    if not all(a.script for a in actors):
        raise Skip("empty script")
    want = [alone_apart(ctx, a) for a in actors]
    fresh_binning(actors)
    trace, got = [], [[] for _ in actors]
    gate = threading.Barrier(len(actors))

    def wrap(m):
        def call(Z):
            trace.append(threading.get_ident())
            time.sleep(0)
            y = m(Z)
            trace.append(threading.get_ident())
            return y
        return call

    def play(i):
        gate.wait(60)
        o = actors[i].new(wrap)
        for name, fn in actors[i].script:
            got[i].append(outcome(lambda: fn(o)) if name != "fit" else (outcome(lambda: fn(o))[:3]))
            if name == "fit" and got[i][-1][0] == "value":
                got[i][-1] = ("value", None)
    errors = []

    def guarded(i):
        try:
            play(i)
        except Exception as e:      # noqa: reported below
            errors.append((i, e))
    before = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        with methods.silent():
            ts = [threading.Thread(target=guarded, args=(i,)) for i in range(len(actors))]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
    finally:
        sys.setswitchinterval(before)
    for i, e in errors:
        raise e
    compare(ctx, actors, want, got, "threads", "with other objects in other threads")
    switches = sum(a != b for a, b in zip(trace, trace[1:]))
    ctx.ev("thread_answers", sum(map(len, got)))
    ctx.ev("thread_switches", switches)
    ctx.case(nontrivial=True, kinds=[a.kind for a in actors], scripts=[[n for n, _ in a.script] for a in actors],
             n=[len(a.X) for a in actors], x0=[float(a.X[0, 0]) for a in actors])


def snapshot(cwd):
    import matplotlib
    import matplotlib.pyplot as plt
    root = logging.getLogger()
    return {"numpy error handling": (np.geterr(), np.geterrcall()), "numpy print options": repr(np.get_printoptions()),
            "numpy random state": repr([np.random.get_state()[0], hash(np.random.get_state()[1].tobytes()), np.random.get_state()[2:]]),
            "python random state": hash(random.getstate()), "warning filters": list(warnings.filters),
            "matplotlib settings": repr(sorted((k, repr(v)) for k, v in dict.items(matplotlib.rcParams))),
            "matplotlib backend": matplotlib.get_backend(), "figures": plt.get_fignums(), "directory": os.getcwd(), "files": sorted(os.listdir(cwd)),
            "environment": dict(os.environ), "standard output": id(sys.stdout), "recursion limit": sys.getrecursionlimit(),
            "switch interval": sys.getswitchinterval(),
            "root logger": (root.level, len(root.handlers), logging.root.manager.disable), "search path": list(sys.path)}


def scen_process(ctx, rng):
    """Around every call: nothing but the answer."""
    import matplotlib
    a, = cast(ctx, rng, MIX, 1, every_curve=False)
    old = os.getcwd()
    here = tempfile.mkdtemp(prefix="c25-")
    seed = int(rng.integers(2 ** 31))
    odd = rng.random() < 0.6
    err = np.geterr()
    opts = np.get_printoptions()
    kept = list(warnings.filters)
    try:
        os.chdir(here)
        np.random.seed(seed)
        random.seed(seed)
        # settings that some earlier call has changed must be seen again
        dict.update(matplotlib.rcParams, START["rc"])
        warnings.filters[:] = [("always", None, Warning, None, 0)]
        ctx.ev("imports_watched")
        ctx.check(not START["import"], "import", lambda: "importing effector changed %s" % START["import"])
        if odd:     # settings that are nobody's default
            np.seterr(over=str(rng.choice(["ignore", "warn"])), invalid=str(rng.choice(["ignore", "warn"])), under="warn")
            np.set_printoptions(precision=int(rng.integers(3, 12)))
        o = None
        for name, fn in [("new", None)] + a.script:
            before = snapshot(here)
            out = io.StringIO()
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
                before["standard output"] = id(sys.stdout)
                if name == "new":
                    o = a.new()
                    r = ("value", None)
                else:
                    r = outcome(lambda: fn(o))
                after = snapshot(here)
            what = "%s of %s (feature %d)" % (name, a.kind, a.f)
            new = [k for k in after["figures"] if k not in before["figures"]]
            if name == "plot":
                ctx.check(len(new) == (1 if r[0] == "value" else len(new)) and len(new) <= 1, "figures", "%s opened %d figures" % (what, len(new)))
            else:
                ctx.check(not new, "figures", "%s opened %d figures" % (what, len(new)))
            ctx.ev("figures_counted")
            figs.take()
            for k in before:
                if k == "figures" or (k in ("numpy random state", "python random state") and (name == "plot" or a.kind.endswith("shap"))):
                    continue
                ctx.check(before[k] == after[k], "process-" + k.replace(" ", "-"), lambda: "%s changed the %s" % (what, k))
            if name in ("eval", "plot", "new", "bad") and a.kind not in ("hindex", "repid"):
                ctx.check(out.getvalue() == "", "prints", lambda: "%s printed %r" % (what, out.getvalue()[:80]))
                ctx.ev("silent_calls")
            if name == "plot" and not a.kind.endswith("shap") and before["numpy random state"] != after["numpy random state"]:
                # a subset of the curves was drawn: from the caller's random state, not from one set anew
                np.random.seed(seed ^ 12345)
                with methods.silent():
                    outcome(lambda: fn(o))
                figs.take()
                ctx.check(snapshot(here)["numpy random state"] != after["numpy random state"], "process-reseeded", what + " reseeded numpy")
                ctx.ev("draws")
            ctx.ev("snapshots_compared")
            ctx.ev("failed_calls", r[0] == "raise")
    finally:
        warnings.filters[:] = kept
        np.seterr(**err)
        np.set_printoptions(**opts)
        os.chdir(old)
        figs.take()
        for n in os.listdir(here):
            p = os.path.join(here, n)
            if os.path.isfile(p):
                os.unlink(p)
        with contextlib.suppress(OSError):
            os.rmdir(here)
    ctx.case(nontrivial=True, method=a.kind, n=len(a.X), script=[n for n, _ in a.script], odd=odd, x0=float(a.X[0, 0]))


SCENARIOS = [("interleaved", scen_interleaved, 4), ("twins", scen_twins, 4), ("nested", scen_nested, 2), ("threads", scen_threads, 3), ("process", scen_process, 4)]
