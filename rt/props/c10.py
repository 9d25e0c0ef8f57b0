"""C10: partition trees partition the instances and every node carries its own data."""
import re
import numpy as np
from rt import gen, ref, methods
from rt.harness import Skip

WARM = methods.warm
RULE = ("the five regional methods on random data (ties on split positions, categorical, binary and single-valued columns, declared "
        "feature types), random fit options; full and pruned trees are walked; non-trivial: a tree with at least one split")
CASES = {"quick": 1800, "thorough": 24000}
REQUIRED = ["nodes", "splits", "deep_nodes", "cat_splits", "numerical_splits", "values_on_position", "pruned_shorter",
            "with_effects", "empty_nodes", "subsampled", "named_features", "no_tree", "fourth_levels"]
ASSUMPTIONS = []


def rows(a, e):
    """The rows (with their derivatives) as a sorted array."""
    z = a if e is None else np.concatenate([a, e], axis=1)
    return z[np.lexsort(z.T)] if len(z) else z


def walk(ctx, tree, root_x, root_e, fname, names, N):
    nodes = tree.nodes
    ctx.check([n.idx for n in nodes] == list(range(len(nodes))), "ids", lambda: "node ids %r" % [n.idx for n in nodes])
    ctx.check(len({n.name for n in nodes}) == len(nodes), "names", lambda: "duplicate names %r" % [n.name for n in nodes])
    roots = [n for n in nodes if n.parent_node is None]
    ctx.check(len(roots) == 1 and roots[0] is nodes[0] and roots[0].level == 0, "root", "not exactly one root")
    ctx.check(nodes[0].name == fname, "root-name", lambda: "root is called %r" % nodes[0].name)
    x0, e0 = nodes[0].data["data"], nodes[0].data["data_effect"]
    same = np.array_equal(rows(x0, e0), rows(root_x, root_e))
    ctx.check(same, "root-data", lambda: "the root does not hold all instances (with their derivatives): %s of %s" % (x0.shape, root_x.shape))
    kids = {}
    for n in nodes:
        x, e = n.data["data"], n.data["data_effect"]
        ctx.check((e is None) == (root_e is None), "effects", "derivatives missing or made up")
        ctx.ev("nodes")
        m = methods.path_mask(x0, n)
        want = rows(x0[m], None if e0 is None else e0[m])
        ctx.check(rows(x, e).shape == want.shape, "membership", lambda: "node %d %r holds %d instances, %d satisfy its conditions" % (
            n.idx, n.name, len(x), m.sum()))
        ctx.check(np.array_equal(rows(x, None), rows(x0[m], None)), "membership", lambda: "node %d %r holds other instances than those of its conditions" % (n.idx, n.name))
        ctx.check(np.array_equal(rows(x, e), want), "node-effects", lambda: "node %d %r does not carry its own instances' derivatives" % (n.idx, n.name))
        ctx.check(n.nof_instances == n.data["nof_instances"] == len(x), "count", lambda: "node %d: nof_instances %r, %d rows" % (n.idx, n.nof_instances, len(x)))
        ctx.check(abs(n.weight - len(x) / N) < 1e-12 and n.weight == n.data["weight"], "weight", lambda: "node %d: weight %r for %d of %d" % (n.idx, n.weight, len(x), N))
        ctx.ev("empty_nodes", len(x) == 0)
        p = n.parent_node
        if p is None:
            continue
        kids.setdefault(p.idx, []).append(n)
        ctx.check(nodes[p.idx] is p and p.idx < n.idx, "parent", "parent outside of the tree")
        ctx.check(n.level == p.level + 1, "level", lambda: "node %d at level %r below level %r" % (n.idx, n.level, p.level))
        ctx.check(n.name.startswith(p.name), "name-prefix", lambda: "%r below %r" % (n.name, p.name))
        tail = n.name[len(p.name):]
        got = re.sub(r"\s+", " ", tail).strip()
        pos = np.round(n.data["position"], 2)
        cond = "%s %s %s" % (names[n.data["feature"]], n.data["comparison"], pos)
        ctx.check(got.endswith(re.sub(r"\s+", " ", cond)), "name", lambda: "node %d is named %r, its condition is %r" % (n.idx, got, cond))
        ctx.check(n.comparison == n.data["comparison"] and n.foc == n.data["feature"] and n.foc_position == n.data["position"],
                  "attributes", "attributes of the node differ from its data")
    levels = {}
    for n in nodes:
        levels.setdefault(n.level, []).append(n)
    ctx.check(sorted(levels) == list(range(len(levels))), "levels", "levels missing")
    for lev, ns in levels.items():
        ctx.check(len(ns) == 2 ** lev, "level-size", lambda: "%d nodes at level %d" % (len(ns), lev))
        ctx.check(sum(n.nof_instances for n in ns) == N, "conservation", lambda: "level %d holds %d of %d instances" % (lev, sum(n.nof_instances for n in ns), N))
    for i, ks in kids.items():
        ctx.check(len(ks) == 2, "children", lambda: "node %d has %d children" % (i, len(ks)))
        a, b = ks
        ctx.check((a.comparison, b.comparison) in (("<=", ">"), ("==", "!=")), "comparisons", lambda: repr((a.comparison, b.comparison)))
        ctx.check(a.foc == b.foc and a.foc_position == b.foc_position, "siblings", "siblings with different conditions")
        ctx.ev("splits")
        ctx.ev("deep_nodes", a.level > 1)
        ctx.ev("cat_splits", a.comparison == "==")
        ctx.ev("numerical_splits", a.comparison == "<=")
        ctx.ev("values_on_position", a.comparison == "<=" and np.any(nodes[i].data["data"][:, a.foc] == a.foc_position))
    return len(nodes) > 1


def scen(ctx, rng):
    name = methods.REGIONAL[int(rng.choice(5, p=[.25, .2, .25, .25, .05]))]
    fact = name in ("rpdp", "rdpdp") and rng.random() < 0.04
    X, kk, f, model = methods.factorial_problem(rng) if fact else methods.regional_problem(rng, name)
    if not fact and rng.random() < 0.4:
        # split positions (midpoints of a grid) that coincide with values
        for j in range(X.shape[1]):
            if j != f and rng.random() < 0.7:
                k = int(rng.integers(2, 9))
                X[:, j] = np.round((X[:, j] - X[:, j].min()) / max(np.ptp(X[:, j]), 1e-9) * 2 * k)
    n, d = X.shape
    jac = model.jac if name in ("rdpdp", "rrhale") else None
    effect = rng.normal(size=X.shape) if name == "rrhale" and rng.random() < 0.7 else None
    names = gen.names(rng, d, ["feat %s" % c for c in "abcdefghijklmnopqrst"[:d]]) if rng.random() < 0.4 else None
    cat = int(rng.choice([0, 2, 5, 10, 15], p=[.08, .23, .23, .23, .23]))
    types = None
    if rng.random() < 0.3:
        types = ["cat" if rng.random() < 0.5 and len(np.unique(X[:, j])) < 25 else "cont" for j in range(d)]
    nof = int(rng.integers(max(2, n // 2), n + 1)) if rng.random() < 0.2 else "all"
    opts = methods.regional_options(rng, name, d, depth=int(rng.integers(1, 4)) if n < 60 else None)
    if rng.random() < 0.5:
        opts["heter_small_enough"] = 0.0
    if rng.random() < 0.5:
        opts["split_categorical_features"] = True
    if fact:
        opts.update(methods.factorial_options(d))
        cat = 0
    elif d > 2 and rng.random() < 0.3:
        keep = [j for j in range(d) if j != f]
        opts["candidate_conditioning_features"] = [int(j) for j in rng.permutation(keep)[:max(1, len(keep) - 1)]]
        opts["max_depth"] = min(opts["max_depth"], len(opts["candidate_conditioning_features"]))
    with methods.silent():
        fe = methods.make(name, X, model, jac=jac, effect=effect, nof=nof, names=list(names) if names else None, types=types, cat=cat)
        fe.fit(f, **opts)
    names = names or ["x_%d" % j for j in range(d)]
    full, pruned = fe.tree_full["feature_%d" % f], fe.tree_pruned["feature_%d" % f]
    desc = dict(method=name, n=n, d=d, feature=f, kinds=kk, model=model.name, opts={k: str(v) for k, v in opts.items()}, nof=nof,
                types=types, cat=cat, x0=float(X[0, f]))
    ctx.check((full is None) == (pruned is None), "trees", "only one of the two trees exists")
    if full is None:
        ctx.ev("no_tree")
        ctx.case(nontrivial=False, **desc)
        return
    xr = full.nodes[0].data["data"]
    E = None
    if name == "rrhale":
        E = effect if effect is not None else model.jac(X)
    if nof == "all" or nof >= n:
        root_x, root_e = X, E
    else:
        # the chosen instances are those of the object; that they are distinct rows of the data is C14
        root_x = fe.data
        root_e = fe.instance_effects if E is not None else None
        ctx.check(len(xr) == nof, "root-data", lambda: "%d instances in the root, %d asked for" % (len(xr), nof))
        allr = {tuple(r) for r in (X if E is None else np.concatenate([X, E], axis=1)).tolist()}
        got = (xr if E is None else np.concatenate([xr, full.nodes[0].data["data_effect"]], axis=1)).tolist()
        ctx.check(all(tuple(r) in allr for r in got), "root-data", "a row of the root is not a row (with its derivatives) of the data")
        ctx.ev("subsampled")
    ctx.ev("with_effects", E is not None)
    ctx.ev("fourth_levels", full.nodes[-1].level > 3)
    ctx.ev("named_features", names[0].startswith("feat"))
    ctx.ev("odd_names", names[0] in gen.ODD_NAMES)
    split = walk(ctx, full, root_x, root_e, names[f], names, len(root_x))
    walk(ctx, pruned, root_x, root_e, names[f], names, len(root_x))
    a, b = full.nodes, pruned.nodes
    ctx.check(len(b) <= len(a), "prefix", "the pruned tree is larger")
    for u, v in zip(a, b):
        ctx.check((u.name, u.level, u.nof_instances, u.heterogeneity) == (v.name, v.level, v.nof_instances, v.heterogeneity), "prefix",
                  lambda: "node %d: %r in the full tree, %r in the pruned tree" % (u.idx, u.name, v.name))
    ctx.ev("pruned_shorter", len(b) < len(a))
    # the accessor used by eval and plot
    node = b[int(rng.integers(len(b)))]
    x, e, nm = fe.get_node_info(f, node.idx)
    ctx.check(np.array_equal(x, node.data["data"]) and nm == node.name, "node-info", "get_node_info returns another node")
    ctx.case(nontrivial=split, nodes=len(a), pruned=len(b), **desc)


SCENARIOS = [("tree", scen, 1)]
