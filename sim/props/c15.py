"""C15: graphs answer every query like the edge list they were built from."""
import numpy as np

from .. import graphcase, hugecase, ref
from ..core import Violation
from .common import lib

PLAN = {
    "quick": {"int": (7000, 7, 200), "jit": (60, 1, 200)},
    "thorough": {"int": (150000, 7, 1500), "jit": (4000, 1, 1500)},
}
RULE = (
    "one run = one seeded vertex and edge list (identifier form, groups, labels, weights,"
    " loops, repeated edges; sizes to 12, around 255 and rarely around 65535), the dense or sparse graph of one of"
    " four classes built from it and a seeded history of 3..12 questions with options and"
    " recomputations, each answer compared with the value computed from the list; some runs"
    " also offer a list that must be refused; non-trivial = at least two different"
    " questions; distinct = different history of (question, options)"
)
REAL = ["graph_ensembles.graphs, graph_ensembles.sparse.graphs", "pandas, numpy, scipy, networkx"]
STUB = ["nothing of the library; numba kernels run interpreted in most runs, compiled in the rest"]
ASSUME = [
    "weights are 64 bit integers or floats; at least one edge",
    "neighbour averages that leave out existing self loops are judged by agreement of the back ends",
    "projected strengths of unweighted multigraphs are not judged (documentation is silent)",
]


def run(ctl):
    if ctl.choose(500) == 499:
        return hugecase.run(ctl, lib)
    c = graphcase.case(ctl)
    backend = ["sparse", "dense"][ctl.choose(2)]
    if backend == "dense" and c.multi and (c.L or 1) * c.N**2 > 2e6:
        backend = "sparse"
    ctl.label("backend:" + backend)
    ctl.log("graph", backend, c.describe())
    if ctl.choose(8) == 7:
        refused(ctl, c, backend)
    g = lib(ctl, "constructor of %s %s" % (backend, c.describe()), c.build, backend)
    graphcase.attributes(c, g, backend + " ")
    names = graphcase.names(c)
    focus = [ctl.pick(names) for _ in range(3)]
    seen, other, asked = set(), None, []
    n = 3 + ctl.choose(10)
    for k in range(n):
        if asked and ctl.choose(4) == 3:  # the same question, one option changed
            q = graphcase.sibling(ctl, c, ctl.pick(asked))
        else:
            q = graphcase.query(ctl, c, ctl.pick(focus) if ctl.choose(2) else ctl.pick(names), True)
        asked.append(q)
        ctl.log("ask", q)
        ctl.step(repr(q))
        seen.add(q.name)
        got = lib(ctl, "%r on %s %s" % (q, backend, c.describe()), q.ask, g)
        if graphcase.undefined(c, q):
            if other is None:
                other = c.build("dense" if backend == "sparse" else "sparse")
            alt = lib(ctl, "%r on the other back end" % q, q.ask, other)
            if np.shape(got) != np.shape(alt) or not graphcase.near(got, alt):
                raise Violation("back-ends-differ", "%r on %s: %s" % (q, c.describe(), ref.show(got, alt)))
            continue
        q.check(c, got, "%s graph, step %d: " % (backend, k))
        ctl.count("queries")
    ctl.nontrivial = len(seen) > 1


def refused(ctl, c, backend):
    bad = graphcase.spoil(ctl, c)
    if bad is None:
        return
    v, e, kw, why = bad
    b = graphcase.Case()
    b.__dict__.update(c.__dict__)
    b.v, b.e, b.kw = v, e, kw
    ctl.step("refuse", why)
    ctl.log("must be refused:", why)
    try:
        b.build(backend)
    except Exception:
        ctl.count("refused")
        return
    raise Violation("accepted-invalid", "%s %s with a %s was accepted" % (backend, c.describe(), why))
