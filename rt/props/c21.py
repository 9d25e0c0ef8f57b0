"""C21: printed reports state what the trees contain."""
import re
import numpy as np
from rt import gen, methods
from rt.harness import Skip

WARM = methods.warm
RULE = ("fitted regional methods with trees of any depth, feature names, feature scalings and single or several requested features; the printed "
        "partitioning and subregion reports are parsed and compared, line by line, with the trees; non-trivial: a report of a tree with splits")
CASES = {"quick": 1200, "thorough": 20000}
REQUIRED = ["node_lines", "deeper_trees", "level_lines", "described_levels", "scaled_reports", "full_trees", "pruned_trees", "no_splits_reported", "trees_missing",
            "zero_heterogeneity", "several_features", "deep_trees", "unfitted_reported", "named", "cat_levels"]
ASSUMPTIONS = ["the trees themselves are checked by C10 and C11"]

NUM = r"(-?\d+\.\d+|-?inf|-?nan)"
NODE = re.compile(r"^(\s*)Node id:\s*(\d+), name: (.*), heter: %s \|\| nof_instances:\s*(\d+) \|\| weight: %s\s*$" % (NUM, NUM))
LEVEL0 = re.compile(r"^\s*Level (\d*), heter: %s\s*$" % NUM)
LEVEL = re.compile(r"^\s*Level (\d*), heter: %s \|\| heter drop: %s \(%s%%\)\s*$" % (NUM, NUM, NUM))


def shows(text, value):
    """The printed number (two decimals) is the value."""
    v = float(text)
    if not np.isfinite(value):
        return not np.isfinite(v)
    return abs(v - value) <= 0.005 * (1 + 1e-6) + 1e-9 * abs(value)


def drop(text, before, after):
    """The printed number is the difference, which is known up to the rounding of the two sums."""
    return shows(text, before - after) or abs(float(text) - (before - after)) <= 1e-13 * max(abs(before), abs(after))


def weighted(tree, level):
    return float(sum(n.data["weight"] * n.data["heterogeneity"] for n in tree.nodes if n.level == level))


def name_of(node, names, scales, f):
    """The name of the node, from the conditions on its path."""
    if node.parent_node is None:
        return names[f]
    j = node.data["feature"]
    p = np.float64(node.data["position"])
    if scales is not None:
        p = scales[j]["std"] * p + scales[j]["mean"]
    sep = " | " if node.level == 1 else " and "
    return "%s%s%s %s %s" % (name_of(node.parent_node, names, scales, f), sep, names[j], node.data["comparison"], p.round(2))


def norm(s):
    return re.sub(r"\s+", " ", s).strip()


def preorder(tree):
    out = []

    def visit(n):
        out.append(n)
        for c in tree.nodes:
            if c.parent_node is n:
                visit(c)
    visit([n for n in tree.nodes if n.parent_node is None][0])
    return out


def same_name(got, want):
    """Equal, up to the last digit of scaled positions (one rounding of the affine map)."""
    if norm(got) == norm(want):
        return True
    rx = r"-?\d+\.\d+(?:e[+-]?\d+)?"
    a, b = re.findall(rx, norm(got)), re.findall(rx, norm(want))
    return re.sub(rx, "#", norm(got)) == re.sub(rx, "#", norm(want)) and all(
        abs(float(u) - float(v)) <= 0.0101 and abs(float(u) - float(v)) <= 1e-9 * abs(float(v)) + 0.0101 for u, v in zip(a, b))


def check_partitioning(ctx, text, fe, fs, important, scales, names):
    lines = text.splitlines()
    at = 0
    for f in fs:
        tree = (fe.tree_pruned if important else fe.tree_full)["feature_%d" % f]
        heads = [i for i in range(at, len(lines)) if re.match(r"^Feature %d - Full partition tree" % f, lines[i])]
        ctx.check(heads, "partitioning-feature", lambda: "feature %d is not in the report:\n%s" % (f, text))
        stats = [i for i in range(heads[0], len(lines)) if re.match(r"^Feature %d - Statistics" % f, lines[i])]
        ctx.check(stats, "partitioning-feature", lambda: "no statistics of feature %d" % f)
        nxt = [i for i in range(stats[0] + 1, len(lines)) if lines[i].startswith("Feature ")] + [len(lines)]
        tl, sl = lines[heads[0] + 1:stats[0]], lines[stats[0] + 1:nxt[0]]
        at = stats[0]
        nodes = [m for m in map(NODE.match, tl) if m]
        levels = [(LEVEL.match(l) or LEVEL0.match(l)) for l in sl if "Level" in l]
        if tree is None:
            ctx.check(not nodes and not levels and any("No splits" in l for l in tl) and any("No splits" in l for l in sl), "partitioning-none",
                      lambda: "a feature without a tree is reported as\n%s" % "\n".join(tl + sl))
            ctx.ev("trees_missing")
            ctx.ev("no_splits_reported")
            continue
        ctx.check(len(nodes) == sum("Node id" in l for l in tl), "partitioning-format", lambda: "\n".join(tl))
        want = preorder(tree)
        ctx.check([int(m.group(2)) for m in nodes] == [n.idx for n in want], "partitioning-nodes",
                  lambda: "nodes %r, the tree has %r" % ([int(m.group(2)) for m in nodes], [n.idx for n in want]))
        indent = {}
        for m, n in zip(nodes, want):
            ctx.check(same_name(m.group(3), name_of(n, names, scales, f)), "partitioning-name",
                      lambda: "node %d is reported as %r, it is %r" % (n.idx, m.group(3), name_of(n, names, scales, f)))
            ctx.check(shows(m.group(4), n.data["heterogeneity"]) and int(m.group(5)) == n.data["nof_instances"] and shows(m.group(6), n.data["weight"]),
                      "partitioning-numbers", lambda: "%r for heterogeneity %r, %r instances, weight %r" % (
                          m.group(0).strip(), n.data["heterogeneity"], n.data["nof_instances"], n.data["weight"]))
            ind = len(m.group(1))
            ctx.check(indent.setdefault(n.level, ind) == ind and all(indent[a] < ind for a in indent if a < n.level), "partitioning-indent",
                      lambda: "indentation does not tell the levels:\n%s" % "\n".join(tl))
            ctx.ev("node_lines")
            ctx.ev("zero_heterogeneity", n.data["heterogeneity"] == 0)
        top = max(n.level for n in tree.nodes)
        ctx.check(len(levels) == top + 1 and all(levels), "partitioning-levels", lambda: "levels:\n%s\nthe tree has %d" % ("\n".join(sl), top + 1))
        for lev, m in enumerate(levels):
            h = weighted(tree, lev)
            ctx.check(int(m.group(1) or 0) == lev and shows(m.group(2), h), "level-heterogeneity", lambda: "%r for level %d with %r" % (m.group(0), lev, h))
            if lev:
                p = weighted(tree, lev - 1)
                ctx.check(m.re is LEVEL and drop(m.group(3), p, h), "level-drop", lambda: "%r for a drop from %r to %r" % (m.group(0), p, h))
                if p != 0:
                    ctx.check(shows(m.group(4), 100 * (p - h) / p), "level-drop-percentage", lambda: "%r for a drop from %r to %r" % (m.group(0), p, h))
            ctx.ev("level_lines")
        ctx.ev("deep_trees", top > 1)
        ctx.ev("pruned_trees" if important else "full_trees", top > 0)
        ctx.case(nontrivial=top > 0)


def check_description(ctx, text, fe, fs, important, scales, names):
    lines = [l for l in text.splitlines() if l.strip()]
    # one section per feature that has a tree
    heads = [i for i, l in enumerate(lines) if not l.startswith(" ") and not l.startswith("-")]
    sections = [lines[a:b] for a, b in zip(heads, heads[1:] + [len(lines)])]
    withtree = [f for f in fs if fe.tree_full["feature_%d" % f] is not None]
    sections = [s for s in sections if not (s[0].startswith("No ") and not any(re.search(r"\b%s\b|feature %d\b" % (re.escape(names[f]), f), s[0]) for f in withtree))]
    ctx.check(len(sections) == len(withtree), "description-features", lambda: "%d sections for the features %r:\n%s" % (len(sections), withtree, text))
    for f in fs:
        if f not in withtree:
            ctx.ev("trees_missing")
    for f, sec in zip(withtree, sections):
        tree = (fe.tree_pruned if important else fe.tree_full)["feature_%d" % f]
        top = max(n.level for n in tree.nodes)
        if top == 0:
            if important:
                ctx.check("No important splits" in sec[0] and sec[0].rstrip().endswith((str(f), names[f])) and len(sec) == 1, "description-none", lambda: "\n".join(sec))
                ctx.ev("no_splits_reported")
            continue
        ctx.check(sec[0].rstrip().endswith(names[f]), "description-feature", lambda: "%r for feature %r" % (sec[0], names[f]))
        levels = [i for i, l in enumerate(sec) if l.startswith("- On feature")]
        ctx.check(len(levels) == top, "description-levels", lambda: "%d levels:\n%s" % (top, "\n".join(sec)))
        for lev, (a, b) in enumerate(zip(levels, levels[1:] + [len(sec)]), 1):
            part = sec[a:b]
            n = [v for v in tree.nodes if v.level == lev]
            prev = [v for v in tree.nodes if v.level == lev - 1]
            j, kind = n[0].data["feature"], n[0].data["feature_type"]
            m = re.match(r"^- On feature (.*) \((\w+)\)$", part[0])
            ctx.check(m and m.group(1) == names[j] and m.group(2) == kind, "description-split", lambda: "%r for a %s split on %r" % (part[0], kind, names[j]))
            body = {}
            for l in part[1:]:
                k, _, v = l.strip(" -").partition(":")
                body[k.strip()] = v.strip()
            p = float(n[0].data["position"])
            if scales is not None:
                p = scales[j]["std"] * p + scales[j]["mean"]
            before, after = weighted(tree, lev - 1), weighted(tree, lev)
            want = ("Position of split", "Heterogeneity before split", "Heterogeneity after split", "Heterogeneity drop",
                    "Number of instances before split", "Number of instances after split")
            ctx.check(all(k in body for k in want), "description-format", lambda: "\n".join(part))
            ctx.check(shows(body[want[0]], p), "description-position", lambda: "%r for %r" % (body[want[0]], p))
            ctx.check(shows(body[want[1]], before) and shows(body[want[2]], after), "description-heterogeneity",
                      lambda: "%r -> %r for %r -> %r" % (body[want[1]], body[want[2]], before, after))
            m = re.match(r"^%s \(%s ?%%\)$" % (NUM, NUM), body[want[3]])
            ctx.check(m and drop(m.group(1), before, after), "description-drop", lambda: "%r for %r" % (body[want[3]], before - after))
            if before != 0 or after == 0:
                ctx.ev("zero_heterogeneity", before == 0)
                ctx.check(shows(m.group(2), 100 * (before - after) / before if before != 0 else 0.0), "description-drop-percentage", lambda: "%r for %r -> %r" % (body[want[3]], before, after))
            for k, nodes in ((want[4], prev), (want[5], n)):
                got = [int(float(v)) for v in re.findall(r"\d+(?:\.0)?", re.sub(r"np\.\w+\(", "(", body[k]))]
                ctx.check(got == [int(v.data["nof_instances"]) for v in nodes], "description-instances", lambda: "%r for %r" % (body[k], [v.data["nof_instances"] for v in nodes]))
            ctx.ev("described_levels")
            ctx.ev("cat_levels", kind == "cat")
        ctx.case(nontrivial=True)


def scen(ctx, rng):
    name = methods.REGIONAL[int(rng.choice(5, p=[.27, .2, .24, .27, .02]))]
    fact = name in ("rpdp", "rdpdp") and rng.random() < 0.04
    X, kk, f, model = methods.factorial_problem(rng) if fact else methods.regional_problem(rng, name, nmin=8, nmax=70)
    n, d = X.shape
    ok = [j for j in range(d) if np.ptp(X[:, j]) > 0]
    names = gen.names(rng, d, [("feature %s" % c if rng.random() < 0.5 else "%s_%s" % (c * 3, c)) for c in "abcdefghijklmnopqrst"[:d]]) if rng.random() < 0.5 else None
    kw = methods.regional_options(rng, name, d, depth=int(rng.integers(1, 4)))
    kw["heter_small_enough"] = float(rng.choice([0.0, 0.0, 0.1]))
    kw["split_categorical_features"] = bool(rng.random() < 0.8)
    if fact:
        kw.update(methods.factorial_options(d))
        ctx.ev("deeper_trees")
    elif rng.random() < 0.1:
        kw["max_depth"] = 0
    if rng.random() < 0.06:
        kw["min_points_per_subregion"] = n + 5
    nof = int(rng.integers(max(2, n // 2), n + 1)) if rng.random() < 0.15 else "all"
    jac = model.jac if name in ("rdpdp", "rrhale") else None
    with methods.silent():
        fe = methods.make(name, X, model, jac=jac, nof=nof, names=list(names) if names else None)
    shown = names or ["x_%d" % j for j in range(d)]
    auto = rng.random() < 0.12 and len(ok) == d and name != "rshap" and n <= 40
    fs = [f] + [int(j) for j in rng.permutation(ok) if j != f][:int(rng.integers(0, 2))]
    with methods.silent():
        if not auto:
            fe.fit(list(fs), **kw)
    for _ in range(int(rng.integers(1, 5))):
        important = bool(rng.random() < 0.5)
        req = [int(v) for v in rng.permutation(fs)[:int(rng.integers(1, len(fs) + 1))]]
        arg = req[0] if len(req) == 1 and rng.random() < 0.7 else req
        if len(req) == d and req == sorted(req) and rng.random() < 0.5:
            arg = "all"
        scales = None
        if rng.random() < 0.5:
            scales = [{"mean": float(rng.normal() * 10), "std": float(10 ** rng.uniform(-2, 3))} for _ in range(d)]
            ctx.ev("scaled_reports")
        kws = {} if scales is None and rng.random() < 0.5 else {"scale_x_list": scales}
        if rng.random() < 0.5 or not important:
            kws["only_important"] = important
        else:
            important = True
        which = bool(rng.random() < 0.5)
        with methods.silent() as buf:
            (fe.show_partitioning if which else fe.describe_subregions)(arg, **kws)
        (check_partitioning if which else check_description)(ctx, _report(buf.getvalue(), which), fe, req, important, scales, shown)
        ctx.ev("several_features", len(req) > 1)
    ctx.ev("unfitted_reported", auto)
    ctx.ev("named", names is not None)
    ctx.case(method=name, n=n, d=d, feature=f, kinds=kk, model=model.name, nof=nof, opts={k: str(v)[:30] for k, v in kw.items()}, x0=float(X[0, f]))


def _report(text, which):
    """Only the report, should a fit before it have printed something."""
    lines = text.splitlines()
    pat = r"^Feature \d+ - |^No splits|^-----|^\s*Node id|^\s*Level" if which else r"^No |^All splits|^Important splits|^- On feature|^  - "
    return "\n".join(l for l in lines if re.match(pat, l))


SCENARIOS = [("reports", scen, 1)]
