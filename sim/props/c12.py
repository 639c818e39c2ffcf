"""C12: conditional samples reproduce the observed group graph."""
import numpy as np

from .. import cond, deep, fits, ref, rngseam, samples, target
from ..core import Discard, Violation
from .common import lib

PLAN = {
    "quick": {"int": (4500, 7, 220), "jit": (120, 1, 220)},
    "thorough": {"int": (60000, 6, 1500), "jit": (4000, 2, 1500)},
}
RULE = (
    "one run = one seeded conditional ensemble (fitness, 1..8 groups, group graph in eight"
    " input forms) and either 1..4 samples under seeded or adversarial streams, or 10..80"
    " samples of one stream judged together, or 1024 low discrepancy samples of a small one, or its expectations and likelihoods, or a fit;"
    " non-trivial = the group graph has a link; distinct = different (ensemble, stream, options)"
)
REAL = [
    "graph_ensembles.sparse.models.conditional (whole class)",
    "graph_ensembles.sparse.graphs (the sampled graphs), graph_ensembles.solver",
    "numpy, scipy, numba-decorated kernels (interpreted, and compiled in the jit mode)",
]
STUB = [
    "operating system entropy; in the interpreted mode also the uniform draws (seeded or"
    " adversarial stream)"
]
ASSUME = [
    "uniform draws lie in [0, 1)",
    "each frequency test has false alarm probability below 1e-14 (Bernstein / Chernoff)",
    "every group has positive total fitness and every observed group link is attainable",
]


def run(ctl):
    mode = ctl.pick(["streams", "streams", "frequency", "expect", "fit", "streams", "streams", "deep"])
    if mode == "deep" and ctl.jit:
        mode = "frequency"
    inst = cond.instance(ctl, big=0.6, N=2 + ctl.choose(4) if mode == "deep" else None)
    ctl.label("style:" + inst.style, "adj:" + inst.adj_form, "loops:%s" % inst.selfloops)
    ctl.nontrivial = bool(inst.macro.any())
    ctl.label("mode:" + mode)
    ctl.log(mode, inst.describe())
    if mode == "fit":
        return fit(ctl, inst)
    m = lib(ctl, "constructor", cond.build, inst)
    if mode == "expect":
        return expect(ctl, inst, m)
    o = cond.draw(ctl, inst)
    what = samples.describe(inst, o)
    ctl.label("weights:%s" % o.mode)
    if mode == "deep":
        free, p1, p2 = cond.law(inst, o)
        if len(free) > 20:
            raise Discard("too many free pairs")

        def one():
            g = samples.ask(m, inst, o)
            W = samples.dense(g.adjacency_matrix(directed=True, weighted=True))
            return W[free[:, 0], free[:, 1]] != 0

        ctl.step("deep", what)
        return lib(ctl, what, deep.check, ctl, one, [tuple(x) for x in free.tolist()], p1, p2, what, draws=inst.N**2, tol=0.009)
    n = 1 + ctl.choose(4) if mode == "streams" else 10 + ctl.choose(71)
    if mode == "frequency" and inst.N > 15 and not ctl.jit:
        n = min(n, 1 + 40 * 225 // inst.N**2)
    seen, units = [], []
    for _ in range(n):
        stream = "plain"
        if mode == "streams" and not ctl.jit:
            stream = ctl.pick(rngseam.Scripted.MODES)
        if mode == "streams":
            ctl.fault("stream_" + stream)
            with rngseam.Scripted(stream, ctl.seed32()):
                g = lib(ctl, what, samples.ask, m, inst, o)
        else:
            g = lib(ctl, what, samples.ask, m, inst, o)
        W = samples.dense(g.adjacency_matrix(directed=True, weighted=True))
        ctl.step(stream, o.mode, o.selfloops, inst.N, int(inst.macro.sum()))
        ctl.obs(W)
        w2 = what + " (stream %s)" % stream
        cond.structure(inst, o, g, W, w2)
        samples.metadata(inst, o, g, w2)
        ctl.count("samples")
        if mode == "streams":
            lib(ctl, "queries of " + w2, samples.usable, ctl, inst, o, g, [W], w2)
            if o.loops == inst.selfloops:
                like = lib(ctl, "log_likelihood of " + w2, m.log_likelihood, g)
                if not np.isfinite(like) or like > 1e-6:
                    raise Violation("sample-likelihood", "%s: log likelihood %r" % (w2, like))
        seen.append(W != 0)
        if o.weights == "cremb":
            s = W != 0
            with np.errstate(divide="ignore", invalid="ignore"):
                mean = np.multiply.outer(o.s_out, o.s_in) / (o.s_out.sum() * inst.P(o.loops))
            units.extend((W[s] / mean[s]).tolist())
    if mode == "frequency":
        ctl.count("statistical_tests", cond.judge(ctl, inst, o, seen, units, what))


def expect(ctl, inst, m):
    t = target.Target(ctl, "conditional", inst)
    for _ in range(1 + ctl.choose(6)):
        q = t.query(like=False)
        ctl.step(repr(q), inst.N)
        got = lib(ctl, "%r on %s" % (q, inst.describe()), q.ask, m)
        q.check(inst, got)
        ctl.count("queries")
    likelihood(ctl, inst, m)


def likelihood(ctl, inst, m):
    import scipy.sparse as sp

    from .. import gen, queries

    r = gen.rs(ctl)
    G = inst.ind()
    z = inst.z()
    A = (r.rand(inst.N, inst.N) < inst.P()) & (z > 0)
    for a, b, i, j, zz in cond.macro_links(inst, _O(inst.selfloops)):
        if not A[np.ix_(i, j)].any():
            u, v = np.argwhere(zz > 0)[r.randint((zz > 0).sum())]
            A[i[u], j[v]] = True
    if ctl.choose(5) == 0 and (z > 0).any():
        i, j = np.argwhere(z > 0)[r.randint((z > 0).sum())]
        A[i, j] = ~A[i, j]  # may contradict the macro graph
    form = ctl.pick(["dense", "csr_array", "coo_array", "csc_array", "graph"])
    w = [np.ones(A.shape), 0.5 + 3 * r.rand(*A.shape)][ctl.choose(2)]
    B = A * w
    if form == "graph" and A.any():
        arg = queries.as_graph("sparse", A.astype(int), w)
    elif form in ("dense", "graph"):
        arg = B
    else:
        arg = getattr(sp, form)(B)
    what = "log_likelihood(%s) on %s" % (form, inst.describe())
    got = lib(ctl, what, m.log_likelihood, arg)
    want = inst.loglik(A.astype(int))
    if not ref.close(got, want, 1e3 * inst.N**2):
        raise Violation("wrong-log_likelihood", "%s: %s" % (what, ref.show(got, want)))
    ctl.count("queries")


class _O:
    def __init__(self, loops):
        self.loops = loops


def fit(ctl, inst):
    """Targets between one link per group link and every possible pair."""
    f = fits.draw_cond(ctl, inst)
    m = lib(ctl, "constructor", cond.build, inst, False, f.targets)
    warned = lib(ctl, "%r on %s" % (f, inst.describe()), fits.run, m, f)
    fits.judge(m, f, warned)
    got = lib(ctl, "expected_num_edges", m.expected_num_edges)
    want = inst.P(param=m.param).sum()
    if not ref.close(got, want, inst.N**2):
        raise Violation("wrong-expected_num_edges", "after %r on %s: %s" % (f, inst.describe(), ref.show(got, want)))
    ctl.step("fit", repr(f))
    ctl.obs(np.asarray(m.param, float))
    ctl.count("fits")
