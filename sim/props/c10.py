"""C10: every sample respects the ensemble, whatever the random stream."""
import numpy as np

from .. import gen, queries, rngseam, samples
from ..core import Violation
from .common import lib

PLAN = {
    "quick": {"int": (9000, 7, 220), "jit": (60, 1, 220)},
    "thorough": {"int": (120000, 6, 1500), "jit": (2500, 2, 1500)},
}
RULE = (
    "one run = one seeded ensemble (dense or sparse, 5 kinds), 1..4 samples drawn under a"
    " random stream that is seeded or adversarial (all zeros, all just below one,"
    " alternating, bursts), each checked for structure, usability as a graph and"
    " likelihood under the model that produced it; non-trivial = a sample with at least"
    " one possible link; distinct = different sequence of (stream, sample options)"
)
REAL = [
    "graph_ensembles.models, graph_ensembles.sparse.models (sampling and likelihood)",
    "graph_ensembles.graphs, graph_ensembles.sparse.graphs (the sampled graphs)",
    "numpy, scipy, numba-decorated kernels (interpreted, and compiled in the jit mode)",
]
STUB = [
    "operating system entropy; in the interpreted mode also the uniform draws (seeded or"
    " adversarial stream)"
]
ASSUME = ["uniform draws lie in [0, 1)"]


def run(ctl):
    backend = ctl.pick(["dense", "sparse"])
    big = ctl.choose(80) == 0 and not ctl.jit
    N = [255, 256, 257][ctl.choose(3)] if big else None
    inst = gen.instance(ctl, N=N, big=0.4)
    samples.balance(inst)
    ctl.label("backend:" + backend, "kind:" + inst.kind, "style:" + inst.style)
    m = lib(ctl, "constructor", gen.build, inst, backend)
    for _ in range(1 if big else 1 + ctl.choose(4)):
        o = samples.draw(ctl, inst, backend)
        what = samples.describe(inst, o)
        mode = ctl.pick(rngseam.Scripted.MODES) if not ctl.jit else "plain"
        ctl.fault("stream_" + mode)
        ctl.step(mode, o.mode, o.selfloops, o.ref is not None, backend, inst.kind)
        ctl.label("weights:%s" % o.mode)
        ctl.log(what, "stream", mode)
        with rngseam.Scripted(mode, ctl.seed32()):
            g = lib(ctl, what, samples.ask, m, inst, o)
        what += " (stream %s)" % mode
        W = lib(ctl, "adjacency of " + what, samples.layers, inst, g)
        samples.structure(inst, o, g, W, what)
        lib(ctl, "queries of " + what, samples.usable, ctl, inst, o, g, W, what)
        ctl.obs(W)
        # the ensemble can have produced it
        if o.loops or not np.any([np.diag(w) for w in W]):
            like = lib(ctl, "log_likelihood of " + what, m.log_likelihood, g, selfloops=o.loops)
            if not np.isfinite(like) or like > 1e-9:
                raise Violation("sample-likelihood", "%s: log likelihood %r" % (what, like))
        if any(p.any() for p in inst.PK(o.loops)):
            ctl.nontrivial = True
        ctl.count("samples")
