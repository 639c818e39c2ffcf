"""Graphs whose counts pass two bytes, checked with sums over the list."""
import numpy as np

from . import gen
from .core import Violation


def merge(code, w):
    """Unique codes and the sum of the weights of each."""
    u, inv = np.unique(code, return_inverse=True)
    return u, np.bincount(inv, weights=w, minlength=len(u))


def run(ctl, lib):
    import pandas as pd

    import graph_ensembles.sparse as m

    r = gen.rs(ctl)
    what = ctl.choose(2)  # vertices or also groups beyond two bytes
    cls = ctl.pick(["DiGraph", "Graph", "MultiDiGraph", "MultiGraph"])
    N = 65534 + ctl.choose(4)
    ids = np.arange(N) * 2 + 11
    i = np.arange(N)
    src = np.concatenate([i, r.randint(N, size=300), [N - 1, 0, N - 2, N - 1]])
    dst = np.concatenate([np.roll(i, 1), r.randint(N, size=300), [N - 1, N - 1, N - 1, 0]])
    w = np.round(r.exponential(5, len(src)) + 1)
    vp, ep = r.permutation(N), r.permutation(len(src))
    v = pd.DataFrame({"id": ids[vp]})
    e = pd.DataFrame({"s": ids[src][ep], "d": ids[dst][ep], "w": w[ep]})
    kw = dict(v_id="id", src="s", dst="d", weight="w")
    G = None
    if what == 1 or (what == 0 and ctl.choose(2)):
        G = N if what == 1 else 3
        gi = r.permutation(N) if what == 1 else r.randint(3, size=N)
        v["g"] = gi[vp]
        kw["v_group"] = "g"
    multi = cls.startswith("Multi")
    lab = r.randint(3, size=len(src))
    if multi:
        e["l"] = lab[ep]
        kw["edge_label"] = "l"
    ctl.label("huge:" + ["vertices", "groups"][what], "class:" + cls)
    ctl.log("huge graph", cls, N, "groups", G)
    g = lib(ctl, "constructor of %s with %d vertices" % (cls, N), getattr(m, cls), v, e, **kw)
    say = "sparse %s, %d vertices, %s groups: " % (cls, N, G)

    def same(name, got, want):
        got = np.asarray(got.toarray() if hasattr(got, "toarray") and got.shape[-1] < 10 else got, float)
        if got.shape != np.shape(want) or not np.allclose(got, want, rtol=1e-12):
            bad = "shape" if got.shape != np.shape(want) else int(np.argmax(np.abs(got - want)))
            raise Violation("wrong-" + name, say + "%s differs (%s)" % (name, bad))

    if g.num_vertices != N or any(g.id_dict[int(ids[k])] != k for k in (0, 1, N // 2, N - 2, N - 1)):
        raise Violation("wrong-ids", say)
    u, s = merge(src * N + dst, w)
    a, b = u // N, u % N
    lo, hi = np.minimum(src, dst), np.maximum(src, dst)
    uu, us = merge(lo * N + hi, w)
    ua, ub = uu // N, uu % N
    off = ua != ub

    def both(x):
        return np.bincount(ua, weights=x, minlength=N) + np.bincount(ub[off], weights=x[off], minlength=N)

    di = "Di" in cls
    same("num_edges", g.num_edges(), float(len(u) if di else len(uu)))
    same("total_weight", g.total_weight(), w.sum())
    same("degree", g.degree(), both(np.ones(len(uu))))
    same("strength", g.strength(), both(us))
    if di:
        same("out_degree", g.out_degree(), np.bincount(a, minlength=N) * 1.0)
        same("in_degree", g.in_degree(), np.bincount(b, minlength=N) * 1.0)
        same("out_strength", g.out_strength(), np.bincount(a, weights=s, minlength=N))
        same("in_strength", g.in_strength(), np.bincount(b, weights=s, minlength=N))
    if G:
        if g.num_groups != G or not np.array_equal(g.groups, gi):
            raise Violation("wrong-groups", say)
        x = g.out_strength_by_group() if di else g.strength_by_group()
        d = (a, gi[b], s) if di else (
            np.concatenate([ua, ub[off]]), gi[np.concatenate([ub, ua[off]])], np.concatenate([us, us[off]])
        )
        k, t = merge(d[0] * G + d[1], d[2])
        x = x.tocoo()
        k2, t2 = merge(x.row.astype(np.int64) * G + x.col, x.data)
        if not np.array_equal(k, k2) or not np.allclose(t, t2):
            raise Violation("wrong-strength_by_group", say + "differs")
    if multi and di:
        for f, n in ((g.out_strength_by_label, src), (g.in_strength_by_label, dst)):
            want = np.stack([np.bincount(n[lab == k], weights=w[lab == k], minlength=N) for k in range(3)], axis=1)
            same("strength_by_label", f(), want)
        same("total_weight_label", g.total_weight_label(), [w[lab == k].sum() for k in range(3)])
    ctl.count("queries", 8)
    ctl.step("huge", cls, what, N)
    ctl.nontrivial = True
