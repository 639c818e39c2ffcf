"""C07: graph construction and queries are all or nothing and never touch
caller data."""
import numpy as np

from .. import faults, graphcase, target
from ..core import Violation
from .common import lib

PLAN = {
    "quick": {"int": (7000, 7, 200), "jit": (40, 1, 200)},
    "thorough": {"int": (150000, 7, 1500), "jit": (2000, 1, 1500)},
}
RULE = (
    "one run = one seeded vertex and edge list and a seeded history on the dense or sparse"
    " graph built from it: constructions, questions and constructions of ensembles from the"
    " graph, some cut short by KeyboardInterrupt or MemoryError at a chosen line of library"
    " code, some refused for invalid lists; the caller's frames and arrays are compared before"
    " and after, every later answer with the value computed from the list; non-trivial = a"
    " fault fired inside a call; distinct = different history of (operation, crash point)"
)
REAL = [
    "graph_ensembles.graphs, graph_ensembles.sparse.graphs, constructors of all in memory ensembles",
    "pandas, numpy, scipy, networkx",
]
STUB = ["nothing of the library"]
ASSUME = [
    "exceptions are delivered at lines with calls, arithmetic or loop edges, as CPython does",
]


def seen(c):
    v, e, kw = c.args()
    return (target.frame(v), target.frame(e), repr(kw))


def unchanged(before, c, what):
    after = seen(c)
    for name, a, b in zip(("vertex frame", "edge frame", "arguments"), before, after):
        if a != b:
            raise Violation("input-changed", "%s changed the %s" % (what, name))


def crash_build(ctl, c, backend):
    _, meth, total = faults.survey(lambda: c.build(backend))
    k = faults.pick(ctl, meth, total)
    exc = faults.EXC[ctl.choose(2)]
    r = faults.crash(lambda: c.build(backend), k, exc())
    if r.fired:
        ctl.fault("crash_" + exc.__name__, "at", r.fired)
        ctl.step("crash-build", r.fired)
        ctl.nontrivial = True
    elif r.exc is not None:
        raise r.exc
    return r


ENS = ["RandomDiGraph", "FitnessModel", "ScaleInvariantModel"]


def models(c, backend):
    """Constructors of ensembles that take this graph."""
    if not c.directed:
        return []
    if backend == "dense":
        import graph_ensembles as m
    else:
        import graph_ensembles.sparse as m
    names = ["MultiFitnessModel", "MultiInvariantModel"] if c.multi else ENS
    return [(n, getattr(m, n)) for n in names if hasattr(m, n)]


def run(ctl):
    c = graphcase.case(ctl, small=7)
    backend = ["sparse", "dense"][ctl.choose(2)]
    ctl.label("backend:" + backend)
    before = seen(c)
    what = "%s %s" % (backend, c.describe())
    ctl.log("graph", what)
    if ctl.choose(2):
        r = lib(ctl, "constructor of " + what, crash_build, ctl, c, backend)
        unchanged(before, c, "construction of %s stopped at %s" % (what, r.fired))
    if ctl.choose(6) == 5:
        bad = graphcase.spoil(ctl, c)
        if bad:
            b = graphcase.Case()
            b.__dict__.update(c.__dict__)
            b.v, b.e, b.kw = bad[:3]
            b0 = seen(b)
            try:
                b.build(backend)
            except Exception:
                pass
            unchanged(b0, b, "refused construction (%s) of %s" % (bad[3], what))
    g = lib(ctl, "constructor of " + what, c.build, backend)
    unchanged(before, c, "construction of " + what)
    graphcase.attributes(c, g)
    snap = target.snapshot(g)
    names = graphcase.names(c)
    focus = [ctl.pick(names) for _ in range(2)]
    ms = models(c, backend)
    failed = []
    for k in range(2 + ctl.choose(5)):
        q = graphcase.query(ctl, c, ctl.pick(focus) if ctl.choose(2) else ctl.pick(names))
        op = ctl.choose(5)
        prop = target.freeze(q.k.get("prop"))
        if op == 0:
            ctl.step(repr(q))
            q.check(c, lib(ctl, "%r on %s" % (q, what), q.ask, g), "step %d: " % k)
            at = repr(q)
        elif op == 1 and ms:
            name, cls = ctl.pick(ms)
            ctl.log("interrupted", name, "of the graph")
            r = lib(ctl, name + " of " + what, faults.disturb, ctl, g, cls)
            at = "%s(graph) stopped at %s" % (name, r.fired)
            ctl.nontrivial |= r.fired is not None
        else:
            ctl.log("interrupted", q)
            r = lib(ctl, "%r on %s" % (q, what), faults.disturb, ctl, g, q.ask)
            at = "%r stopped at %s" % (q, r.fired)
            ctl.nontrivial |= r.fired is not None
            if r.exc is None:
                q.check(c, r.result, at + ": ")
            failed.append(q)
        if prop != target.freeze(q.k.get("prop")):
            raise Violation("input-changed", at + " changed the property array")
        unchanged(before, c, at)
        target.same(snap, g, at)
    for q in failed[-3:]:
        q.check(c, lib(ctl, "%r again" % q, q.ask, g), "after interrupted calls: ")
    for name in focus + [ctl.pick(names)]:
        q = graphcase.query(ctl, c, name)
        q.check(c, lib(ctl, "%r" % q, q.ask, g), "after interrupted calls: ")
    unchanged(before, c, "the history")
    graphcase.attributes(c, g, "at the end ")
