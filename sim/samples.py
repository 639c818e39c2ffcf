"""Drawing samples through the public API, and their structural rules."""
import numpy as np
import scipy.sparse as sp

from . import gen, queries
from .core import Violation


def balance(inst):
    """Rescale in-fitness so that the default strengths are consistent."""
    if inst.kind == "random":
        return
    tot_x, tot_y = inst.x.sum(axis=0), inst.y.sum(axis=0)
    if np.all(np.asarray(tot_x) > 0) and np.all(np.asarray(tot_y) > 0):
        inst.y = inst.y * (tot_x / tot_y)
        if inst.density == "exact":
            inst.density = "rescaled"  # no longer free of rounding
        p = np.asarray(inst.param, float)
        f = np.asarray(tot_y / tot_x, float)
        if inst.multi and not inst.per_label:
            return
        inst.param = p * f if np.ndim(f) else p * float(f)


class Opts:
    pass


def ref_graph(ctl, inst, backend):
    """A reference graph with names, groups (and labels) of its own."""
    import pandas as pd

    if backend == "dense":
        import graph_ensembles as m
    else:
        import graph_ensembles.sparse as m
    r = gen.rs(ctl)
    n = inst.N
    names = ["n%04d" % i for i in range(n)]
    grp = ["g%d" % (r.randint(3)) for _ in range(n)]
    v = pd.DataFrame({"name": names, "grp": grp})
    L = inst.L or 1
    rows = []
    for k in range(L):
        rows.append((names[0], names[1 % n], "lab%d" % k, 1.5))
        rows.append((names[r.randint(n)], names[r.randint(n)], "lab%d" % k, 2.0))
    e = pd.DataFrame(rows, columns=["a", "b", "lab", "w"]).drop_duplicates(["a", "b", "lab"])
    kw = dict(v_id="name", src="a", dst="b", weight="w")
    if ctl.choose(2):
        kw["v_group"] = "grp"
    if inst.multi:
        return m.MultiDiGraph(v, e, edge_label="lab", **kw)
    return m.DiGraph(v, e, **kw)


def strengths(ctl, inst):
    r = gen.rs(ctl)
    shape = (inst.N, inst.L) if inst.multi else (inst.N,)
    s_out = r.rand(*shape) + 0.05
    s_in = r.rand(*shape) + 0.05
    if ctl.choose(3) == 0:  # integer strengths
        s_out = np.ceil(s_out * 9)
    if inst.multi:
        s_in *= s_out.sum(axis=0) / s_in.sum(axis=0)
    else:
        s_in *= s_out.sum() / s_in.sum()
    return s_out, s_in


def draw(ctl, inst, backend, weighted=None, ref=True):
    o = Opts()
    o.backend = backend
    o.selfloops = ctl.pick(["default", None, False, True])
    o.loops = inst.selfloops if o.selfloops in ("default", None) else o.selfloops
    o.ref = ref_graph(ctl, inst, backend) if ref and ctl.choose(3) == 2 else None
    o.s_out = o.s_in = None
    o.given = False
    modes = [None]
    usable = inst.kind == "random" or (
        np.all(inst.x.sum(axis=0) > 0) and np.all(inst.y.sum(axis=0) > 0)
    )
    if usable:
        modes += ["cremb", "cremb-given"]
    if inst.kind == "random":
        modes = [None, "random", "cremb-given"] if 0 < inst.param[1] < 1 else [None, "cremb-given"]
    o.mode = ctl.pick(modes) if weighted is None else (ctl.pick(modes[1:]) if weighted and len(modes) > 1 else None)
    o.weights = o.mode.split("-")[0] if o.mode else None
    if o.mode == "cremb-given":
        o.s_out, o.s_in = strengths(ctl, inst)
        o.given = True
    elif o.mode == "cremb":
        o.s_out, o.s_in = inst.x, inst.y
        tot = np.abs(1 - inst.y.sum(axis=0) / inst.x.sum(axis=0))
        if np.any(tot > 1e-7):  # unbalanced default strengths are refused
            o.mode, o.weights = None, None
    o.sparse_arg = bool(ctl.choose(3) == 2)
    return o


def describe(inst, o):
    return "sample(weights=%r%s, selfloops=%r, ref=%s) of %s %s" % (
        o.weights,
        " given strengths" if o.given else "",
        o.selfloops,
        o.ref is not None,
        o.backend,
        inst.describe(),
    )


def ask(m, inst, o):
    kw = {}
    if o.selfloops != "default":
        kw["selfloops"] = o.selfloops
    if o.weights is not None:
        kw["weights"] = o.weights
    if o.ref is not None:
        kw["ref_g"] = o.ref
    if o.given:
        a, b = o.s_out.copy(), o.s_in.copy()
        if o.sparse_arg and np.all(a == np.round(a)):
            a = a.astype(np.int64)
        if inst.multi:
            if o.sparse_arg:
                a, b = sp.csc_array(a), sp.csr_array(b)
            kw["out_strength_label"], kw["in_strength_label"] = a, b
        else:
            kw["out_strength"], kw["in_strength"] = a, b
    return m.sample(**kw)


def layers(inst, g):
    """The sample's weighted adjacency per label, through the graph's API."""
    if inst.multi:
        t = g.adjacency_tensor(directed=True, weighted=True)
        return [dense(x) for x in t]
    return [dense(g.adjacency_matrix(directed=True, weighted=True))]


def dense(a):
    return np.asarray(a.toarray() if hasattr(a, "toarray") else a)


def mean_weight(inst, o, param=None):
    """Expected weight of each pair given that it is linked."""
    q = (inst.param if param is None else param)[-1]
    with np.errstate(divide="ignore", invalid="ignore"):
        out = []
        for k, P in enumerate(inst.PK(o.loops, param=param)):
            if o.weights == "random":
                w = 1.0 / (1 - q) if inst.discrete else 1.0 / q
                out.append(np.full(P.shape, w))
            else:
                a = o.s_out[:, k] if inst.multi else o.s_out
                b = o.s_in[:, k] if inst.multi else o.s_in
                out.append(np.multiply.outer(a, b) / (a.sum() * P))
        return out


def structure(inst, o, g, W, what):
    """Rules every single sample obeys whatever the random stream."""
    n = inst.N
    PK = inst.PK(o.loops)
    if len(W) != len(PK):
        raise Violation("sample-shape", "%s: %d layers" % (what, len(W)))
    logs = inst.logs()
    m = inst.mask(o.loops) > 0
    for k, (P, w) in enumerate(zip(PK, W)):
        if w.shape != (n, n):
            raise Violation("sample-shape", "%s: layer shape %s" % (what, w.shape))
        A = w != 0
        if not o.loops and np.any(np.diag(A)):
            raise Violation("sample-self-loop", "%s: vertex %d" % (what, int(np.argmax(np.diag(A)))))
        bad = A & (P == 0)
        if bad.any():
            raise Violation("sample-impossible-link", "%s: pair %s label %d" % (what, np.argwhere(bad)[0].tolist(), k))
        bad = ~A & (logs[k][1] < -45) & m  # certain beyond any rounding
        if bad.any():
            raise Violation("sample-missing-link", "%s: pair %s label %d has probability 1" % (what, np.argwhere(bad)[0].tolist(), k))
        v = w[A].astype(float)
        if o.weights is None:
            if np.any(v != 1):
                raise Violation("sample-multiplicity", "%s: binary sample with values %s" % (what, sorted(set(v.tolist()))[:4]))
        elif not np.all(np.isfinite(v)) or np.any(v < 0):
            raise Violation("sample-weight", "%s: weight %r" % (what, v[~(v >= 0) | ~np.isfinite(v)][:1]))
        elif o.weights == "random" and inst.discrete and np.any((v < 1) | (v != np.round(v))):
            raise Violation("sample-weight", "%s: discrete weight %r" % (what, v[v != np.round(v)][:1]))
    metadata(inst, o, g, what)


def metadata(inst, o, g, what):
    n = inst.N
    if g.num_vertices != n:
        raise Violation("sample-metadata", "%s: num_vertices %r" % (what, g.num_vertices))
    ids = dict(o.ref.id_dict) if o.ref is not None else {i: i for i in range(n)}
    if dict(g.id_dict) != ids:
        raise Violation("sample-metadata", "%s: vertex ids differ" % what)
    if o.ref is not None and hasattr(o.ref, "groups"):
        if not np.array_equal(np.asarray(g.groups), np.asarray(o.ref.groups)) or dict(g.group_dict) != dict(o.ref.group_dict):
            raise Violation("sample-metadata", "%s: groups differ" % what)
        if g.num_groups != o.ref.num_groups or g.group_dtype != o.ref.group_dtype:
            raise Violation("sample-metadata", "%s: number or type of groups differ" % what)
    if inst.multi:
        if g.num_labels != inst.L:
            raise Violation("sample-metadata", "%s: num_labels %r" % (what, g.num_labels))
        labs = dict(o.ref.label_dict) if o.ref is not None else {i: i for i in range(inst.L)}
        if dict(g.label_dict) != labs:
            raise Violation("sample-metadata", "%s: labels differ" % what)


def usable(ctl, inst, o, g, W, what):
    """The sample behaves as the graph whose links it lists."""
    A = np.stack([w != 0 for w in W])
    any_ = A.any(axis=0)
    bin2 = dense(g.adjacency_matrix(directed=True, weighted=False)) != 0
    if not np.array_equal(bin2, any_):
        raise Violation("sample-graph", "%s: adjacency_matrix differs from the links" % what)
    if int(g.num_edges()) != int(any_.sum()):
        raise Violation("sample-graph", "%s: num_edges %r instead of %d" % (what, g.num_edges(), any_.sum()))
    for name, want in (
        ("out_degree", any_.sum(1)),
        ("in_degree", any_.sum(0)),
        ("degree", (any_ | any_.T).sum(1)),
    ):
        got = dense(getattr(g, name)())
        if not np.array_equal(got.ravel(), want):
            raise Violation("sample-graph", "%s: %s differs" % (what, name))
    S = np.stack([np.asarray(w, float) for w in W]).sum(axis=0)
    # (strengths of an unweighted multigraph are left open)
    for name, want in (("out_strength", S.sum(1)), ("in_strength", S.sum(0))):
        if inst.multi and o.weights is None:
            break
        got = dense(getattr(g, name)()).ravel()
        if not np.allclose(got, want, rtol=1e-9, atol=1e-12):
            raise Violation("sample-graph", "%s: %s differs" % (what, name))
    if inst.multi:
        got = dense(g.num_edges_label()).ravel()
        if not np.array_equal(got, A.sum(axis=(1, 2))):
            raise Violation("sample-graph", "%s: num_edges_label differs" % what)
    if any_.any() and ctl.choose(3) == 0:
        # the measures the ensembles are compared on, out of neighbours' degrees
        nz = any_ & ~np.eye(len(any_), dtype=bool)
        if not np.any(np.diag(any_)):
            d = (any_ | any_.T).sum(1)
            got = dense(g.average_nn_degree(ddir="out-in", ndir="out")).ravel()
            k = nz.sum(1)
            want = np.where(k > 0, nz.dot(d) / np.where(k > 0, k, 1), 0.0)
            if not np.allclose(got, want, rtol=1e-9, atol=1e-12):
                raise Violation("sample-graph", "%s: average_nn_degree differs" % what)


def record(inst, o, tally, W, param=None):
    """Enter the sample in a statistical tally."""
    tally.add([w != 0 for w in W])
    if o.weights is not None:
        if o.weights == "random" and inst.discrete:
            tally.q = float((inst.param if param is None else param)[1])
            for w in W:
                tally.geo.extend(w[w != 0].astype(float).tolist())
        else:
            for w, mw in zip(W, mean_weight(inst, o, param)):
                s = w != 0
                tally.unit.extend((w[s] / mw[s]).tolist())
