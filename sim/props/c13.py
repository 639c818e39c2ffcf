"""C13: sampling is read only and reproducible."""
import numpy as np

from .. import rngseam, samples, target
from ..core import Violation
from .common import REAL_SPARK, STUB_SPARK, lib

PLAN = {
    "quick": {"int": (3600, 6, 220), "jit": (60, 2, 220)},
    "thorough": {"int": (60000, 6, 1500), "jit": (3000, 2, 1500)},
}
RULE = (
    "one run = one seeded ensemble of any back end and a seeded history of queries and"
    " samples; arguments and ensemble are compared before and after, answers with the"
    " reference, and (in memory) samples from equal generator states with each other, with"
    " and without queries in between and on a fresh object; non-trivial = a sample with at"
    " least one uncertain pair; distinct = different history of (operation, options)"
)
REAL = ["graph_ensembles.models, graph_ensembles.sparse.models, both graphs modules"] + REAL_SPARK
STUB = STUB_SPARK
ASSUME = ["on Spark only the read-only part is checked: executors own their generators"]


def adj(t, g):
    if t.inst.multi:
        return [samples.dense(x) for x in g.adjacency_tensor(directed=True, weighted=True)]
    return [samples.dense(g.adjacency_matrix(directed=True, weighted=True))]


def run(ctl):
    t = target.make(ctl, big=0.4 if ctl.choose(8) == 7 else 0.15)
    inst = t.inst
    m = lib(ctl, "constructor", t.new)
    ctl.log("instance", t.backend, inst.describe())
    before = target.snapshot(m)
    inmem = t.backend != "spark"
    asked = []
    drawn = []  # (seed, opts, sample)
    for k in range(2 + ctl.choose(5)):
        if ctl.choose(5) < 2:
            q = t.query()
            asked.append(q)
            ctl.step(repr(q))
            q.check(inst, lib(ctl, repr(q), q.ask, m))
            continue
        if drawn and inmem and ctl.choose(2):
            s, o, W0 = ctl.pick(drawn)
        else:
            s, o, W0 = ctl.seed32(), t.opts(), None
        what = samples.describe(inst, o)
        ctl.step(what, W0 is None)
        ctl.log(what, "generator state", s, "again" if W0 is not None else "")
        refb = target.snapshot(o.ref) if o.ref is not None else None
        args = [target.freeze(x) for x in (o.s_out, o.s_in) if x is not None]
        who = m
        if W0 is not None and ctl.choose(3) == 2:
            who = lib(ctl, "constructor", t.new)  # same ensemble, new object
        rngseam.seed(s)
        g = lib(ctl, what, lambda: ask(t, who, o))
        W = adj(t, g)
        ctl.obs(W)
        ctl.count("samples")
        if W0 is not None:
            for a, b in zip(W0, W):
                if a.shape != b.shape or not np.array_equal(a, b):
                    raise Violation(
                        "not-reproducible",
                        "%s: %d elements differ from the sample drawn before from the same"
                        " generator state" % (what, int(np.sum(a != b)) if a.shape == b.shape else -1),
                    )
            ctl.count("repeated")
        else:
            drawn.append((s, o, W))
        if args != [target.freeze(x) for x in (o.s_out, o.s_in) if x is not None]:
            raise Violation("argument-changed", "%s changed the strengths passed" % what)
        if refb is not None:
            target.same(refb, o.ref, "reference graph after " + what)
        target.same(before, m, "ensemble after " + what)
        P = inst.PK(o.loops)
        ctl.nontrivial |= any(((p > 0) & (p < 1)).any() for p in P)
    if not asked or ctl.choose(2):
        asked.append(t.query())
    for q in asked[-3:]:
        q.check(inst, lib(ctl, repr(q), q.ask, m), where="after sampling: ")
    target.same(before, m, "ensemble at the end")


def ask(t, m, o):
    """As samples.ask, but the very arrays of the caller are passed."""
    kw = {}
    if o.selfloops != "default":
        kw["selfloops"] = o.selfloops
    if o.weights is not None:
        kw["weights"] = o.weights
    if o.ref is not None:
        kw["ref_g"] = o.ref
    if o.given:
        a, b = o.s_out, o.s_in
        if t.inst.multi:
            kw["out_strength_label"], kw["in_strength_label"] = a, b
        else:
            kw["out_strength"], kw["in_strength"] = a, b
    return m.sample(**kw)
