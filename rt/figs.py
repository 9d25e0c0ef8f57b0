"""What a matplotlib figure actually shows, as plain arrays."""
import numpy as np


def describe(fig):
    out = []
    for ax in fig.axes:
        d = {"title": ax.get_title(), "xlabel": ax.get_xlabel(), "ylabel": ax.get_ylabel(), "ylim": tuple(ax.get_ylim()),
             "xlim": tuple(ax.get_xlim()), "lines": [], "polys": [], "segments": [], "rects": [], "images": [], "texts": []}
        for l in ax.lines:
            d["lines"].append({"label": l.get_label(), "x": np.asarray(l.get_xdata(), dtype=float),
                               "y": np.asarray(l.get_ydata(), dtype=float), "data": l.get_transform() == ax.transData,
                               "style": (l.get_linestyle(), l.get_marker(), str(l.get_color()))})
        for c in ax.collections:
            if hasattr(c, "get_segments") and type(c).__name__ == "LineCollection":
                d["segments"].append([np.asarray(s, dtype=float) for s in c.get_segments()])
            else:
                d["polys"].append({"label": c.get_label(), "verts": [np.asarray(p.vertices, dtype=float) for p in c.get_paths()]})
        for p in ax.patches:
            d["rects"].append((p.get_x(), p.get_y(), p.get_width(), p.get_height()))
        for im in ax.images:
            d["images"].append(np.asarray(im.get_array(), dtype=float))
        d["texts"] = [(t.get_position(), t.get_text()) for t in ax.texts]
        d["xticks"] = [t.get_text() for t in ax.get_xticklabels()]
        d["yticks"] = [t.get_text() for t in ax.get_yticklabels()]
        out.append(d)
    return out


def take():
    """Describe all open figures and close them."""
    import matplotlib.pyplot as plt
    out = [describe(plt.figure(n)) for n in plt.get_fignums()]
    plt.close("all")
    return out


def _flat(o):
    if isinstance(o, dict):
        for k in sorted(o):
            yield from _flat(o[k])
    elif isinstance(o, (list, tuple)):
        yield ("len", len(o))
        for v in o:
            yield from _flat(v)
    else:
        yield o


def same(a, b, rtol=1e-9, atol=0.0):
    """Two descriptions agree (numbers up to rounding, of which atol may remain where large terms cancel); returns None or a message."""
    if atol and len(a) == len(b):      # nothing but rounding is drawn: where the ticks are is rounding, too
        noise = [[abs(np.subtract(*d["ylim"])) <= 1e3 * atol for d in fig] for fig in a]
        drop = lambda o: [[{k: v for k, v in d.items() if k != "yticks"} if z else d for d, z in zip(fig, row)] for fig, row in zip(o, noise)]
        if [len(fig) for fig in a] == [len(fig) for fig in b]:
            a, b = drop(a), drop(b)
    fa, fb = list(_flat(a)), list(_flat(b))
    if len(fa) != len(fb):
        return "different numbers of artists"
    for x, y in zip(fa, fb):
        if isinstance(x, (np.ndarray, float, int, np.generic)) and not isinstance(x, bool):
            x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
            if x.shape != y.shape:
                return "shapes %s and %s" % (x.shape, y.shape)
            if x.size:
                ok = np.isfinite(x)
                if not np.array_equal(ok, np.isfinite(y)):
                    return "non-finite values differ"
                s = max(np.max(np.abs(x[ok]), initial=0), np.max(np.abs(y[ok]), initial=0))
                if np.max(np.abs(x[ok] - y[ok]), initial=0) > rtol * s + atol + 1e-300:
                    return "%r and %r" % (x.ravel()[:5], y.ravel()[:5])
        elif x != y:
            return "%r and %r" % (x, y)
    return None
