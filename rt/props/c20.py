"""C20: transforming data along splits partitions every feature's column."""
import re
import numpy as np
from rt import gen, methods
from rt.harness import Skip

RULE = ("random split structures (0-5 levels per feature, categorical and numerical, positions on and between data values, repeated split features) "
        "and the important splits of fitted regional methods, applied to fitted and unseen data, against a row-by-row interpreter of the "
        "conditions; non-trivial: a feature with at least two columns")
CASES = {"quick": 2200, "thorough": 40000}
REQUIRED = ["cells_checked", "columns", "unsplit_features", "three_levels", "deeper", "cat_splits", "num_splits", "values_on_position", "unseen_data", "fitted_splits",
            "other_key_order", "names_checked", "reused", "int_data", "split_on_itself", "readonly", "match_tree_nodes"]
ASSUMPTIONS = []


def meets(v, split, side):
    if split["type"] == "cat":
        return (v == split["position"]) == (side == 0)
    return (v <= split["position"]) == (side == 0)


PATTERN = re.compile(r"^x(\d+)(<=|>|==|=|!=)(-?[\d.]+|-?inf|nan)$")


def parse(name):
    """'x0 | x1<=0.50 & x2!=1.00' -> (0, [(1, '<=', 0.5), ...])"""
    head, _, tail = name.partition("|")
    conds = []
    for c in tail.split("&") if tail.strip() else []:
        m = PATTERN.match(c.strip().replace(" ", ""))
        if not m:
            return None
        conds.append((int(m.group(1)), {"==": "="}.get(m.group(2), m.group(2)), float(m.group(3))))
    m = re.match(r"^x(\d+)$", head.strip())
    return (int(m.group(1)), conds) if m else None


def judge(ctx, t, splits, X):
    """One transformation against the interpreter."""
    keep = np.array(X, copy=True)
    out = t.transform(X)
    ctx.check(np.array_equal(keep, X), "input-changed", "the data passed in were modified")
    n, d = X.shape
    per = [splits["feat_%d" % j] for j in range(d)]
    width = sum(2 ** len(s) for s in per)
    ctx.check(isinstance(out, np.ndarray) and out.shape == (n, width), "shape", lambda: "%s, expected %s" % (np.shape(out), (n, width)))
    names = list(t.new_names)
    ctx.check(len(names) == width and len(set(names)) == width or _equal_names(per), "names", lambda: "%d names, %d columns" % (len(names), width))
    at = 0
    for j in range(d):
        k = 2 ** len(per[j])
        block = out[:, at:at + k]
        ctx.check(np.array_equal(block.sum(axis=1), X[:, j].astype(float)), "conservation", lambda: "the columns of feature %d do not add up to it" % j)
        used = np.zeros((n, k), dtype=bool)
        codes = set()
        for c in range(k):
            p = parse(names[at + c])
            ctx.check(p is not None and p[0] == j and len(p[1]) == len(per[j]), "name", lambda: "column %d of feature %d is called %r" % (c, j, names[at + c]))
            code = []
            for (feat, op, val), s in zip(p[1], per[j]):
                ops = ("=", "!=") if s["type"] == "cat" else ("<=", ">")
                ctx.check(feat == s["feature"] and op in ops and abs(val - s["position"]) <= 0.00501 + 1e-9 * abs(val), "name-condition",
                          lambda: "%r for split %r" % (names[at + c], s))
                code.append(ops.index(op))
            code = tuple(code)
            ctx.check(code not in codes, "name-twice", lambda: "two columns called %r" % names[at + c])
            codes.add(code)
            for i in range(n):
                inside = all(meets(X[i, s["feature"]], s, side) for s, side in zip(per[j], code))
                want = float(X[i, j]) if inside else 0.0
                ctx.check(out[i, at + c] == want, "cell", lambda: "row %d, column %r: %r, expected %r" % (i, names[at + c], out[i, at + c], want))
                if hasattr(t, "mask"):
                    ctx.check(bool(t.mask[i, at + c]) == inside, "mask", lambda: "row %d, column %r: mask %r" % (i, names[at + c], t.mask[i, at + c]))
                used[i, c] = inside
            ctx.ev("names_checked")
        ctx.check(np.all(used.sum(axis=1) == 1), "partition", "an instance is in none or several of the columns of a feature")
        ctx.ev("cells_checked", n * k)
        ctx.ev("columns", k)
        ctx.ev("unsplit_features", k == 1)
        ctx.ev("three_levels", k == 8)
        ctx.ev("deeper", k > 8)
        ctx.ev("cat_splits", sum(s["type"] == "cat" for s in per[j]))
        ctx.ev("num_splits", sum(s["type"] != "cat" for s in per[j]))
        ctx.ev("split_on_itself", sum(s["feature"] == j for s in per[j]))
        ctx.ev("values_on_position", sum(int(np.sum(X[:, s["feature"]] == s["position"])) for s in per[j] if s["type"] != "cat"))
        at += k
    return out


def _equal_names(per):
    """Two splits of a feature that print alike (the same feature, positions equal to two decimals)."""
    return any(len({(s["feature"], s["type"], "%.2f" % s["position"]) for s in p}) < len(p) for p in per)


def scen_random(ctx, rng):
    from effector.partitioning import DataTransformer
    d = methods.wide(rng, 1, 5)
    ctx.ev("wide", d > 9)
    n = gen.pick_n(rng, 1, 60)
    X, kk = gen.dataset(rng, n, d)
    if rng.random() < 0.15:
        X = np.round(X).astype(int)
        ctx.ev("int_data")
    keys = [int(j) for j in (rng.permutation(d) if rng.random() < 0.3 else range(d))]
    ctx.ev("other_key_order", keys != list(range(d)))
    per = {}
    for j in range(d):
        lst = []
        for _ in range(int(rng.choice([0, 0, 1, 2, 3])) if d > 3 or rng.random() < 0.9 else int(rng.integers(4, 6))):
            g = int(rng.integers(d))
            cat = bool(rng.random() < 0.4)
            r = rng.random()
            pos = rng.choice(X[:, g]) if cat and r < 0.9 or r < 0.4 else rng.uniform(X[:, g].min() - 0.1, X[:, g].max() + 0.1)
            lst.append({"feature": g, "position": np.float64(pos) if rng.random() < 0.8 else float(pos), "type": "cat" if cat else "cont"})
        per[j] = lst
    splits = {"feat_%d" % j: (per[j] if per[j] or rng.random() < 0.5 else {}) for j in keys}
    t = DataTransformer(splits)
    for _ in range(int(rng.integers(1, 4))):
        Z = X
        if rng.random() < 0.5:
            Z = X[rng.permutation(n)[:max(1, n // 2)]]
            ctx.ev("unseen_data")
        if rng.random() < 0.3:
            Z = np.asfortranarray(Z)
        if rng.random() < 0.5:
            Z = Z.copy()
            Z.setflags(write=False)
            ctx.ev("readonly")
        judge(ctx, t, splits, Z)
        ctx.ev("reused")
    ctx.case(nontrivial=any(per.values()), n=n, d=d, kinds=kk, splits=[[(s["feature"], s["type"]) for s in per[j]] for j in range(d)], x0=float(X[0, 0]))


def scen_fitted(ctx, rng):
    from effector.partitioning import DataTransformer
    name = ["rpdp", "rale", "rdpdp", "rrhale"][int(rng.integers(4))]
    X, kk, f, model = methods.regional_problem(rng, name, nmin=15, nmax=70)
    n, d = X.shape
    if np.any(np.ptp(X, axis=0) == 0):
        raise Skip("constant feature")
    kw = methods.regional_options(rng, name, d)
    kw.update(heter_small_enough=0.0, heter_pcg_drop_thres=0.05, split_categorical_features=True)
    with methods.silent():
        fe = methods.make(name, X, model, jac=model.jac if name in ("rdpdp", "rrhale") else None, nof="all")
        fe.fit("all", **kw)
    splits = {"feat_%d" % j: fe.partitioners["feature_%d" % j].important_splits for j in range(d)}
    t = DataTransformer(splits)
    out = judge(ctx, t, splits, X)
    Z = X + rng.normal(size=X.shape) * X.std(axis=0) * 0.3
    at = 0
    for j in range(d):          # the columns are those of the leaves of the pruned tree
        k = 2 ** len(splits["feat_%d" % j])
        tree = fe.tree_pruned["feature_%d" % j]
        if tree is not None and k > 1:
            deepest = max(v.level for v in tree.nodes)
            leaves = [v for v in tree.nodes if v.level == deepest]
            cols = {(out[:, at + c]).tobytes() for c in range(k)}
            for v in leaves:
                col = np.where(methods.path_mask(X, v), X[:, j], 0.0)
                ctx.check((col + 0.0).tobytes() in {(np.frombuffer(b) + 0.0).tobytes() for b in cols}, "tree-leaf",
                          lambda: "no column of feature %d holds the instances of node %r" % (j, v.name))
                ctx.ev("match_tree_nodes")
        at += k
    judge(ctx, t, splits, Z)
    ctx.ev("unseen_data")
    ctx.ev("fitted_splits")
    ctx.case(nontrivial=any(len(s) for s in splits.values()), method=name, n=n, d=d, kinds=kk, model=model.name,
             splits=[len(s) for s in splits.values()], x0=float(X[0, 0]))


SCENARIOS = [("random", scen_random, 4), ("fitted", scen_fitted, 1)]
