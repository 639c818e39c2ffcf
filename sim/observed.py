"""Calibration of ensembles built from an observed graph."""
import numpy as np

from . import cond, fits, gen, ref
from .core import Discard, Violation
from .props.common import lib


def fit(ctl, sc=None):
    """A model of an observed graph has its number of links."""
    import pandas as pd

    kind = ctl.pick(gen.KINDS + ([] if sc else ["conditional"]))
    backend = "sparse" if kind == "conditional" else ctl.pick(["dense", "sparse"])
    if sc is not None:
        backend = "spark"
    if backend == "dense":
        import graph_ensembles as lb
    else:
        import graph_ensembles.sparse as lb
    r = gen.rs(ctl)
    n = 3 + ctl.choose(20)
    multi = kind.startswith("multi")
    L = 1 + ctl.choose(3) if multi else 1
    loops = bool(ctl.choose(2))
    dens = [0.15, 0.05, 0.4][ctl.choose(3)]
    weighted = ctl.choose(4) > 0
    layers = []
    for _ in range(L):
        A = r.rand(n, n) < dens
        if not loops:
            np.fill_diagonal(A, False)
        if not A.any():
            A[0, 1] = True
        layers.append(A * 1.0 if not weighted else A * [np.ones((n, n)), 1.0 + r.randint(0, 20, (n, n)), 0.1 + r.rand(n, n)][ctl.choose(3)])
    rows = []
    for k, W in enumerate(layers):
        for i, j in np.argwhere(W):
            rows.append(("v%03d" % i, "v%03d" % j, "l%02d" % k, float(W[i, j])))
    M = 1 + ctl.choose(4)
    grp = np.concatenate([np.arange(M), r.randint(M, size=n - M)]) if n >= M else np.zeros(n, int)
    v = pd.DataFrame({"id": ["v%03d" % i for i in range(n)], "grp": ["g%02d" % x for x in grp]})
    e = pd.DataFrame(rows, columns=["src", "dst", "label", "weight"])
    kw = dict(v_id="id", src="src", dst="dst", weight="weight")
    if not weighted:
        kw.pop("weight")
    inst = ref.Inst(kind=kind, N=n, selfloops=loops, L=L if multi else None, style="graph", per_label=multi)
    if multi:
        g = lib(ctl, "graph", lb.MultiDiGraph, v, e, edge_label="label", **kw)
        inst.x = np.stack([W.sum(1) for W in layers], axis=1)
        inst.y = np.stack([W.sum(0) for W in layers], axis=1)
        E = np.array([float((W != 0).sum()) for W in layers])
        top = fits.support(inst)[1]
        targets = {"num_edges_label": E}
        ok = np.all(E <= 0.985 * np.asarray(top)) and np.all(E > 0)
    else:
        W = layers[0]
        if kind == "conditional":
            kw["v_group"] = "grp"
        g = lib(ctl, "graph", lb.DiGraph, v, e, **kw)
        inst.x, inst.y = W.sum(1), W.sum(0)
        E = float((W != 0).sum())
        targets = {"num_edges": E}
        if kind == "random":
            top = float(inst.mask().sum())
            ok = E <= top
        elif kind == "conditional":
            c = cond.Cond(N=n, selfloops=loops, style="graph", x=inst.x, y=inst.y, groups=grp, M=M)
            G = c.ind()
            c.macro = G.T.dot(W).dot(G)
            if np.any(G.T.dot(c.x) == 0) or np.any(G.T.dot(c.y) == 0):
                raise Discard("a group without fitness")
            can = c.zmacro() > 1e-9 * np.multiply.outer(G.T.dot(c.x), G.T.dot(c.y))
            if np.any((c.macro != 0) & ~can):
                raise Discard("an unattainable group link")
            low = float((c.macro != 0).sum())
            top = float(((c.z() > 0) & (c.expand(c.macro) != 0)).sum())
            ok = low + 0.02 * (top - low) < E <= low + 0.97 * (top - low)
            c.param = np.array([1.0])
            inst = c
        else:
            top = fits.support(inst)[0]
            ok = E <= 0.985 * top
    if not ok:
        raise Discard("target not attainable with margin")
    f = fits.Fit(inst, targets, {})
    what = "%s model of an observed graph, N=%d links=%s selfloops=%s" % (kind, n, E, loops)
    ctl.log(backend, what)
    ctl.step(backend, what)
    if kind == "conditional":
        m = lib(ctl, what, lb.ConditionalInvariantModel, g, c.macro.copy(), selfloops=loops)
    else:
        cls = {
            "random": "RandomDiGraph",
            "fitness": "FitnessModel",
            "invariant": "ScaleInvariantModel",
            "multifitness": "MultiFitnessModel",
            "multiinvariant": "MultiInvariantModel",
        }[kind]
        if sc is not None:
            import graph_ensembles.spark as ls

            opt = {"selfloops": loops}
            pb = gen.blocks(ctl, n)
            if pb is not None:
                opt["p_blocks"] = pb
            m = lib(ctl, what, getattr(ls, cls), sc, g, **opt)
        else:
            m = lib(ctl, what, getattr(lb, cls), g, selfloops=loops)
    warned = lib(ctl, "fit of " + what, fits.run, m, f)
    if kind == "random":
        # for the observed total weight the law of the weights is exponential
        got = lib(ctl, "expected_num_edges", m.expected_num_edges)
        if not ref.close(got, E, n * n):
            raise Violation("target-missed", "%s: %s" % (what, ref.show(got, E)))
        got = lib(ctl, "expected_total_weight", m.expected_total_weight) if weighted else W.sum()
        if not ref.close(got, W.sum(), n * n):
            raise Violation("target-missed", "%s: total weight %s" % (what, ref.show(got, W.sum())))
    else:
        fits.judge(m, f, warned, backend + " ")
        got = lib(ctl, "expected_num_edges", m.expected_num_edges)
        want = inst.P(param=np.asarray(m.param, float)).sum()
        if not ref.close(got, want, n * n):
            raise Violation("wrong-expected_num_edges", "%s: %s" % (what, ref.show(got, want)))
        if multi:
            got = lib(ctl, "expected_num_edges_label", m.expected_num_edges_label)
            if not np.allclose(ref.to_array(got).ravel(), E, rtol=1e-6):
                raise Violation("target-missed", "%s: per label %s" % (what, ref.show(got, E)))
    ctl.nontrivial = True
    ctl.obs(np.asarray(m.param, float))
    ctl.count("fits")
