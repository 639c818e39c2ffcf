"""Graphs built from vertex and edge lists, every question they answer, and
the answers computed from the lists alone."""
import numpy as np

from . import gen, ref
from .core import Violation

CLASSES = ["DiGraph", "Graph", "MultiDiGraph", "MultiGraph"]
DIRS = ["out", "in", "out-in"]


class Case:
    """A vertex list, an edge list and how they are described to the library."""

    def describe(self):
        return {
            "class": self.cls, "N": self.N, "edges": len(self.e), "labels": self.L,
            "groups": self.G, "weighted": self.weighted, "ids": self.idform,
            "loops": bool(self.B.any(0).diagonal().any()), "repeated": self.repeated,
        }

    @property
    def multi(self):
        return self.cls.startswith("Multi")

    @property
    def directed(self):
        return "Di" in self.cls

    def args(self):
        """(v, e, kwargs): the caller's own objects."""
        return self.v, self.e, dict(self.kw)

    def build(self, backend):
        if backend == "dense":
            import graph_ensembles as m
        else:
            import graph_ensembles.sparse as m
        v, e, kw = self.args()
        return getattr(m, self.cls)(v, e, **kw)


def weights(ctl, r, n):
    how = ctl.choose(8)
    if how < 3:
        return r.rand(n) + 0.01
    if how < 6:
        return np.round(r.exponential(5, n) + 1).astype(int)
    if how == 6:  # many orders of magnitude
        return 10.0 ** r.uniform(-9, 9, n)
    # the ends of the range, where sums are still finite
    return (r.rand(n) + 0.5) * [1e-300, 1e305, 1e-12, 1e15][ctl.choose(4)]


def near(got, want, weights=False):
    """Equal up to rounding of sums of positive terms."""
    got, want = np.asarray(got, float), np.asarray(want, float)
    top = np.max(np.abs(want)) if want.size else 0.0
    with np.errstate(invalid="ignore"):
        ok = (got == want) | (np.abs(got - want) <= 1e-9 * np.abs(want) + 1e-12 * (top if weights else max(top, 1.0)))
    return bool(np.all(ok))


def case(ctl, big=0.1, small=None):
    import pandas as pd

    c = Case()
    r = gen.rs(ctl)
    c.cls = ctl.pick(CLASSES)
    c.N = N = gen.few(ctl, small or 11)
    nlab = 1 + ctl.choose(4)
    if not small and ctl.flag(big):
        if ctl.choose(2) or not c.multi:
            c.N = N = 253 + ctl.choose(6)
        else:
            nlab = 253 + ctl.choose(6)
    c.weighted = ctl.choose(3) > 0
    # identifiers
    c.idform = ctl.pick(["str", "int", "pair", "unpadded", "listed", "float"])
    perm = r.permutation(N)
    if c.idform in ("str", "listed"):
        ids = ["v%04d" % i for i in r.choice(9000, N, replace=False)]
    elif c.idform == "unpadded":
        ids = ["%d" % i for i in r.choice(2000, N, replace=False)]
    elif c.idform == "float":
        ids = [float(i) / 4 for i in r.choice(np.arange(-300, 900), N, replace=False)]
    elif c.idform == "int":
        ids = [int(i) for i in r.choice(np.arange(-300, 900), N, replace=False)]
    else:
        k = int(np.ceil(np.sqrt(N)))
        allp = [("c%02d" % a, int(b)) for a in range(k) for b in range(k)]
        ids = [allp[i] for i in r.choice(len(allp), N, replace=False)]
    pos = {x: i for i, x in enumerate(sorted(ids))}
    kw = {}
    vd = {"extra": r.rand(N)}
    if c.idform == "pair":
        vd["k1"], vd["k2"] = [a for a, _ in ids], [b for _, b in ids]
        kw["v_id"] = ["k1", "k2"]
    else:
        vd["id"] = ids
        kw["v_id"] = ["id"] if c.idform == "listed" else "id"
    # groups
    c.G = None
    gform = ctl.choose(4)
    if gform:
        ng = 1 + ctl.choose(min(N, 5)) if N < 200 or ctl.choose(2) else N
        gi = np.concatenate([np.arange(min(ng, N)), r.randint(ng, size=max(0, N - ng))])[r.permutation(N)]
        names = [int(x) for x in r.choice(2000, ng, replace=False)] if gform == 2 else (
            ["g%04d" % x for x in r.choice(2000, ng, replace=False)]
        )
        if gform == 3:
            vd["ga"], vd["gb"] = [names[i] for i in gi], [int(i) % 2 for i in gi]
            kw["v_group"] = ["ga", "gb"]
            gv = list(zip(vd["ga"], vd["gb"]))
        else:
            vd["grp"] = [names[i] for i in gi]
            kw["v_group"] = ["grp"] if c.idform == "listed" else "grp"
            gv = vd["grp"]
        gpos = {x: i for i, x in enumerate(sorted(set(gv)))}
        c.G = len(gpos)
        c.gnames = gpos
        c.groups = np.zeros(N, int)
        for x, g in zip(ids, gv):
            c.groups[pos[x]] = gpos[g]
    v = pd.DataFrame(vd)
    if ctl.choose(2):
        v.index = r.permutation(N) + 7
    # edges
    E = 1 + ctl.choose(3 * N if N < 50 else N)
    loops, c.repeated = ctl.choose(2) == 1, ctl.choose(2) == 1
    L = nlab if c.multi else 1
    if L > 50:
        E = max(E, L)
    rows, seen = [], set()
    for k in range(E):
        a, b = r.randint(N), r.randint(N)
        if not loops and a == b:
            if N == 1:
                continue
            b = (b + 1) % N
        l = k % L if L > 50 else r.randint(L)
        if not c.repeated and (a, b, l) in seen:
            continue
        seen.add((a, b, l))
        rows.append((a, b, l))
    wts = weights(ctl, r, len(rows))
    lform = ctl.choose(3)
    lnames = ["l%04d" % x for x in r.choice(2000, L, replace=False)]
    if lform == 1:
        lnames = [int(x) for x in r.choice(2000, L, replace=False)]
    labs = [lnames[l] for _, _, l in rows]
    ed = {"w": wts, "other": r.rand(len(rows))}
    if c.idform == "pair":
        for nm, k in (("s", 0), ("d", 1)):
            ed[nm + "1"] = [ids[x[k]][0] for x in rows]
            ed[nm + "2"] = [ids[x[k]][1] for x in rows]
        kw["src"], kw["dst"] = ["s1", "s2"], ["d1", "d2"]
    else:
        ed["s"], ed["d"] = [ids[x[0]] for x in rows], [ids[x[1]] for x in rows]
        kw["src"], kw["dst"] = ("s", "d") if c.idform != "listed" else (["s"], ["d"])
    if c.weighted:
        kw["weight"] = "w" if ctl.choose(3) or c.multi else ["w"]
    if c.multi:
        if lform == 2:
            ed["la"], ed["lb"] = labs, [0] * len(rows)
            kw["edge_label"] = ["la", "lb"]
            labs = [(x, 0) for x in labs]
        else:
            ed["lab"] = labs
            kw["edge_label"] = ["lab"] if c.idform == "listed" else "lab"
    e = pd.DataFrame(ed)
    if ctl.choose(2):
        e.index = r.permutation(len(rows)) * 3
    c.v, c.e, c.kw, c.ids, c.pos, c.rows = v, e, kw, ids, pos, rows
    # the reference tensors
    lpos = {x: i for i, x in enumerate(sorted(set(labs)))} if c.multi else {None: 0}
    c.L = len(lpos) if c.multi else None
    c.labels = lpos
    T = np.zeros((len(lpos), N, N))
    for (a, b, _), lab, w in zip(rows, labs, wts):
        k = lpos[lab] if c.multi else 0
        i, j = pos[ids[a]], pos[ids[b]]
        if c.weighted:
            T[k, i, j] += w
        else:
            T[k, i, j] = 1
    c.T, c.B = T, T != 0
    if small is None and N > 200:
        ctl.label("size:>255" if N > 255 else "size:~255")
    if L > 200:
        ctl.label("labels:%d" % len(lpos))
    ctl.label("class:" + c.cls)
    return c


def sym(X, weighted=True):
    """Undirected version: weights of both directions are summed."""
    if not weighted:  # the strengths of unweighted graphs are the degrees
        return ((X + X.T) != 0) * 1.0
    return X + X.T - np.diag(np.diag(X))


def symb(B):
    return B | B.T


class Ask:
    def __init__(self, name, **k):
        self.name, self.k = name, k

    def __repr__(self):
        return "%s(%s)" % (self.name, ", ".join("%s=%r" % (a, b) for a, b in self.k.items() if a != "prop"))

    def ask(self, g):
        k = dict(self.k)
        if self.name == "average_nn_property":
            return g.average_nn_property(k.pop("prop"), **k)
        return getattr(g, self.name)(**k)

    def want(self, c):
        n, k = self.name, self.k
        B = c.B.any(0)
        M = c.T.sum(0) if c.weighted else B.astype(float)
        G = (c.groups[:, None] == np.arange(c.G)[None, :]).astype(float) if c.G else None
        di = c.directed
        if n == "adjacency_matrix":
            d, w = k.get("directed", di), k.get("weighted", False)
            if di and d:
                return M if w else B
            return sym(M, c.weighted) if w else symb(B)
        if n == "adjacency_tensor":
            d, w = k.get("directed", di), k.get("weighted", False)
            X = [c.T[i] if w else c.B[i] for i in range(len(c.T))]
            if not (di and d):
                X = [sym(x, c.weighted) if w else symb(x) for x in X]
            return np.stack(X)
        if n == "num_edges":
            return float(B.sum()) if di else float(np.triu(symb(B)).sum())
        if n == "total_weight":
            return M.sum() if di else np.triu(sym(M, c.weighted)).sum()
        if n in ("degree", "degree_by_group"):
            X = symb(B).astype(float)
        elif n in ("strength", "strength_by_group"):
            X = sym(M, c.weighted)
        elif n.startswith("out_degree"):
            X = B.astype(float)
        elif n.startswith("in_degree"):
            X = B.T.astype(float)
        elif n.startswith("out_strength"):
            X = M
        elif n.startswith("in_strength"):
            X = M.T
        if n.endswith("_by_group"):
            return X.dot(G)
        if n.endswith("label"):
            def layer(f):
                return np.stack([f(i) for i in range(len(c.T))], axis=-1)

            s, b = c.T, c.B
            if n == "num_edges_label":
                return layer(lambda i: float(b[i].sum()) if di else float(np.triu(symb(b[i])).sum()))
            if n == "total_weight_label":
                return layer(lambda i: s[i].sum() if di else np.triu(sym(s[i], c.weighted)).sum())
            return {
                "degree_by_label": lambda: layer(lambda i: symb(b[i]).sum(1) * 1.0),
                "strength_by_label": lambda: layer(lambda i: sym(s[i], c.weighted).sum(1)),
                "out_degree_by_label": lambda: layer(lambda i: b[i].sum(1) * 1.0),
                "in_degree_by_label": lambda: layer(lambda i: b[i].sum(0) * 1.0),
                "out_strength_by_label": lambda: layer(lambda i: s[i].sum(1)),
                "in_strength_by_label": lambda: layer(lambda i: s[i].sum(0)),
            }[n]()
        if n.startswith("average_nn"):
            nd = k.get("ndir", "out") if di else "out-in"
            X = {"out": B, "in": B.T, "out-in": symb(B)}[nd].astype(float)
            if n == "average_nn_degree":
                dd = k.get("ddir", "out") if di else "out-in"
                prop = {"out": B.sum(1), "in": B.sum(0), "out-in": symb(B).sum(1)}[dd] * 1.0
            else:
                prop = k["prop"]
            deg = X.sum(1)
            return np.where(deg > 0, X.dot(prop) / np.where(deg > 0, deg, 1), 0.0)
        return X.sum(1)

    def check(self, c, got, where=""):
        if self.name == "to_networkx":
            return networkx(c, got, where)
        want = self.want(c)
        if self.name == "adjacency_tensor":
            got = np.stack([samples_dense(x) for x in got])
        else:
            got = samples_dense(got)
        if np.shape(got) != np.shape(want):
            raise Violation(
                "wrong-" + self.name,
                "%s%r on %s: shape %s instead of %s"
                % (where, self, c.describe(), np.shape(got), np.shape(want)),
            )
        if not near(got, want, "average" not in self.name):
            raise Violation(
                "wrong-" + self.name, "%s%r on %s: %s" % (where, self, c.describe(), ref.show(got, want))
            )


def samples_dense(x):
    if hasattr(x, "toarray"):
        return np.asarray(x.toarray())
    return np.asarray(x)


def networkx(c, G, where):
    what = "%sto_networkx() on %s" % (where, c.describe())
    if G.is_directed() != c.directed or G.is_multigraph() != c.multi:
        raise Violation("wrong-to_networkx", what + ": kind of graph")
    back = {G.nodes[i]["node_id"]: i for i in G.nodes}
    if back != c.pos:
        raise Violation("wrong-to_networkx", what + ": vertices")
    if c.G:
        inv = {i: g for g, i in c.gnames.items()}
        for i in G.nodes:
            if G.nodes[i].get("group") != inv[c.groups[i]]:
                raise Violation("wrong-to_networkx", what + ": groups")
    N = c.N
    T = np.zeros_like(c.T)
    if c.multi:
        for i, j, d in G.edges(data=True):
            T[c.labels[d["label"]], i, j] += float(d["weight"])
            if not c.directed and i != j:
                T[c.labels[d["label"]], j, i] += float(d["weight"])
        want = c.T if c.directed else np.stack([sym(x) for x in c.T])
        if not c.weighted:
            want = want != 0
            T = T != 0
    else:
        for i, j, d in G.edges(data=True):
            T[0, i, j] += float(d["weight"])
            if not c.directed and i != j:
                T[0, j, i] += float(d["weight"])
        want = c.T if c.directed else np.stack([sym(c.T[0])])
        if not c.weighted:
            want = want != 0
            T = T != 0
    if not near(T, want, True):
        raise Violation("wrong-to_networkx", what + ": edges or weights")


def names(c):
    out = ["adjacency_matrix", "num_edges", "degree", "average_nn_property", "average_nn_degree", "to_networkx"]
    # a binary multigraph has no weight to sum over labels
    flat = c.weighted or not c.multi
    if flat:
        out += ["total_weight", "strength"]
    if c.G:
        out.append("degree_by_group")
        if flat:
            out.append("strength_by_group")
    if c.directed:
        out += ["out_degree", "in_degree"]
        if flat:
            out += ["out_strength", "in_strength"]
        if c.G:
            out += ["out_degree_by_group", "in_degree_by_group"]
            if flat:
                out += ["out_strength_by_group", "in_strength_by_group"]
    if c.multi:
        out += ["adjacency_tensor", "num_edges_label", "total_weight_label", "degree_by_label", "strength_by_label"]
        if c.directed:
            out += ["out_degree_by_label", "in_degree_by_label", "out_strength_by_label", "in_strength_by_label"]
    return out


def undefined(c, q):
    """The list alone does not settle the answer: the back ends must agree."""
    return (
        q.name.startswith("average_nn")
        and not q.k.get("selfloops", False)
        and c.B.any(0).diagonal().any()
    )


def query(ctl, c, name=None, cross=False):
    if name is None:
        name = ctl.pick(names(c))
    k = {}
    if name in ("adjacency_matrix", "adjacency_tensor"):
        if ctl.choose(2):
            k["directed"] = bool(ctl.choose(2))
        if ctl.choose(2):
            k["weighted"] = bool(ctl.choose(2))
        if name == "adjacency_matrix" and c.multi and not c.weighted:
            k.pop("weighted", None)
        return Ask(name, **k)
    if name == "to_networkx":
        return Ask(name)
    if name.startswith("average_nn"):
        # with self loops present only the plain average over all neighbours
        # is defined
        if c.B.any(0).diagonal().any() and (not cross or ctl.choose(2)):
            k["selfloops"] = True
        elif ctl.choose(2):
            k["selfloops"] = bool(ctl.choose(2))
        if c.directed:
            k["ndir"] = ctl.pick(DIRS)
        if name == "average_nn_property":
            r = gen.rs(ctl)
            k["prop"] = [r.rand(c.N), r.randn(c.N), np.arange(c.N) * 1.0][ctl.choose(3)]
        else:
            if c.directed:
                k["ddir"] = ctl.pick(DIRS)
            if ctl.choose(4) == 3:
                k["recompute"] = True
        if ctl.choose(4) == 3:
            k["deg_recompute"] = True
        return Ask(name, **k)
    if ctl.choose(3) == 2:
        k["recompute"] = True
    return Ask(name, **k)


def sibling(ctl, c, q):
    k = dict(q.k)
    if q.name.startswith("average_nn"):
        opts = ["selfloops"] + (["ndir"] if c.directed else [])
        if c.directed and q.name == "average_nn_degree":
            opts.append("ddir")
        o = ctl.pick(opts)
        k.pop("recompute", None)
        k.pop("deg_recompute", None)
        if o == "selfloops":
            k[o] = not k.get(o, False)
        else:
            k[o] = ctl.pick(DIRS)
    elif q.name in ("adjacency_matrix", "adjacency_tensor"):
        o = ctl.pick(["directed", "weighted"])
        if not (o == "weighted" and q.name == "adjacency_matrix" and c.multi and not c.weighted):
            k[o] = not k.get(o, c.directed if o == "directed" else False)
    return Ask(q.name, **k)


def attributes(c, g, where=""):
    """Names and sizes published by the graph itself."""
    what = "%s%s" % (where, c.describe())
    if g.num_vertices != c.N or dict(g.id_dict) != c.pos:
        raise Violation("wrong-ids", what)
    if c.G and (g.num_groups != c.G or dict(g.group_dict) != c.gnames or not np.array_equal(g.groups, c.groups)):
        raise Violation("wrong-groups", what)
    if c.multi and (g.num_labels != c.L or dict(g.label_dict) != c.labels):
        raise Violation("wrong-labels", what)
    if bool(g.weighted) != c.weighted:
        raise Violation("wrong-weighted", what)


def spoil(ctl, c):
    """Turn the lists into ones that must be refused; returns the reason."""
    v, e, kw = c.args()
    kind = ctl.choose(3)
    src = kw["src"]
    if kind == 0:
        import pandas as pd

        i = ctl.choose(c.N)
        v = pd.concat([v, v.iloc[[i]]], ignore_index=True)
        return v, e, kw, "repeated vertex"
    i = ctl.choose(len(e))
    e = e.copy()
    if kind == 1:
        col = (src if isinstance(src, str) else src[0]) if ctl.choose(2) else (
            kw["dst"] if isinstance(kw["dst"], str) else kw["dst"][0]
        )
        j = e.columns.get_loc(col)
        e.iloc[i, j] = 99999 if c.idform in ("int", "float") else "zz-unknown"
        return v, e, kw, "unknown vertex"
    if not c.weighted:
        return None
    e.iloc[i, e.columns.get_loc("w")] = [0, -1][ctl.choose(2)]
    return v, e, kw, "weight not positive"
