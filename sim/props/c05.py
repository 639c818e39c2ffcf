"""C05: a failed or interrupted query leaves the ensemble as if never asked."""
import numpy as np

from .. import faults, gen, rngseam, samples, target
from ..core import Violation
from .common import REAL_SPARK, STUB_SPARK, is_harness, lib

PLAN = {
    "quick": {"int": (4200, 7, 200), "jit": (16, 1, 200)},
    "thorough": {"int": (90000, 7, 1500), "jit": (900, 1, 1500)},
}
RULE = (
    "one run = one seeded ensemble of any back end and a seeded history in which one or more"
    " queries or samples are cut short: KeyboardInterrupt or MemoryError at a chosen line of"
    " library code, or (Spark) a job aborted after repeated task failures or interrupted"
    " between tasks; afterwards attributes, arguments and all later answers are compared"
    " with a reference; non-trivial = a fault fired inside the call; distinct = different"
    " history of (operation, options, crash point)"
)
REAL = ["graph_ensembles.models, graph_ensembles.sparse.models, both graphs modules"] + REAL_SPARK
STUB = STUB_SPARK
ASSUME = [
    "exceptions are delivered at lines with calls, arithmetic or loop edges, as CPython does",
    "inside a compiled kernel no exception is delivered (it holds no object state)",
]


def run(ctl):
    t = target.make(ctl, N=gen.few(ctl, 5), extreme=False, faults=ctl.choose(2) == 1)
    inst = t.inst
    m = lib(ctl, "constructor", t.new)
    ctl.log("instance", t.backend, inst.describe())
    before = target.snapshot(m)
    names = t.names()
    focus = [ctl.pick(names) for _ in range(2)]
    failed = []
    n = 2 + ctl.choose(5)
    for k in range(n):
        what = ctl.choose(4)
        if what == 0 and k < n - 1:
            q = t.query(ctl.pick(focus) if ctl.choose(2) else ctl.pick(names))
            ctl.log("query", q)
            ctl.step(repr(q))
            q.check(inst, lib(ctl, repr(q), q.ask, m), where="step %d: " % k)
            continue
        if what == 3:
            o = t.opts()
            s = ctl.seed32()
            name = samples.describe(inst, o)
            ctl.log("interrupted", name)
            c = lib(
                ctl, name, faults.disturb,
                ctl, m, lambda x: samples.ask(x, inst, o), t.sc, t.new, lambda: rngseam.seed(s)
            )
            if c.exc is None:
                lib(ctl, name, t.sample_check, o, c.result, name)
            failed.append(("sample", o, s))
        else:
            q = t.query(ctl.pick(focus) if ctl.choose(2) else ctl.pick(names))
            name = repr(q)
            ctl.log("interrupted", name)
            args = target.freeze(list(q.a.values()))
            c = lib(ctl, name, faults.disturb, ctl, m, q.ask, t.sc, t.new)
            if c.exc is None:
                q.check(inst, c.result, where="after %s was handled: " % c.fired)
            if args != target.freeze(list(q.a.values())):
                raise Violation("argument-changed", "%s stopped at %s" % (name, c.fired))
            failed.append(("query", q, None))
        ctl.nontrivial |= c.fired is not None
        target.same(before, m, "%s stopped at %s" % (name, c.fired))
        ctl.count("interrupted")
    where = "after interrupted calls: "
    for kind, q, s in failed[-3:]:
        if kind == "query":
            q.check(inst, lib(ctl, where + repr(q), q.ask, m), where=where)
        else:
            name = where + samples.describe(inst, q)
            rngseam.seed(s)
            g = lib(ctl, name, samples.ask, m, inst, q)
            W = lib(ctl, name, t.sample_check, q, g, name)
            if t.backend != "spark":
                rngseam.seed(s)
                V = t.sample_check(q, lib(ctl, name, samples.ask, t.new(), inst, q), name)
                if not all(np.array_equal(a, b) for a, b in zip(W, V)):
                    raise Violation("sample-changed", name)
    for name in focus + [ctl.pick(names)]:
        q = t.query(name)
        q.check(inst, lib(ctl, where + repr(q), q.ask, m), where=where)
    target.same(before, m, "at the end")
