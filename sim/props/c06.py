"""C06: a failed or interrupted fit leaves a consistent ensemble."""
import numpy as np

from .. import faults, fits, gen, rngseam, samples, target
from ..core import Violation
from .c08 import judgeable
from .common import REAL_SPARK, STUB_SPARK, lib

PLAN = {
    "quick": {"int": (3500, 7, 220), "jit": (16, 1, 220)},
    "thorough": {"int": (70000, 7, 1500), "jit": (800, 1, 1500)},
}
RULE = (
    "one run = one seeded ensemble of any back end with a fit target and a seeded history"
    " of queries and fits, one or more of the fits cut short: KeyboardInterrupt or"
    " MemoryError at a chosen line of library code, or (Spark) a job aborted or interrupted"
    " between tasks; the parameters afterwards must be those before the call or those of an"
    " undisturbed rehearsal on a copy, and all later answers and fits must agree with them;"
    " non-trivial = a fault fired inside a fit; distinct = different history of (operation,"
    " options, crash point)"
)
REAL = [
    "graph_ensembles.models, graph_ensembles.sparse.models, graph_ensembles.solver",
] + REAL_SPARK
STUB = STUB_SPARK
ASSUME = [
    "exceptions are delivered at lines with calls, arithmetic or loop edges, as CPython does",
    "inside a compiled kernel no exception is delivered (it holds no object state)",
]
FREE = ("param", "solver_output")


def now(m):
    p = getattr(m, "param", None)
    return None if p is None else np.array(p, float)


def still(before, m, what):
    target.same({k: v for k, v in before.items() if k not in FREE}, m, what)


def ask(ctl, t, m, q, where):
    p = now(m)
    got = lib(ctl, where + repr(q), q.ask, m)
    if not np.all(np.isfinite(p)) and q.name == "log_likelihood":
        return
    if q.name in ("log_likelihood", "confusion_matrix") and not judgeable(t.inst, q, p):
        return
    q.check(t.inst, got, param=p, where=where)


def run(ctl):
    t = target.make(ctl, fit=True, N=gen.few(ctl, 5), extreme=False, faults=ctl.choose(2) == 1)
    inst, f = t.inst, t.fitcase
    fitted = ctl.choose(3) > 0
    m = lib(ctl, "constructor", t.new, fitted)
    ctl.log("instance", t.backend, inst.describe(), f)
    before = target.snapshot(m)
    names = t.names()
    focus = [ctl.pick(names) for _ in range(3)]
    crashed = 0
    for k in range(2 + ctl.choose(5)):
        op = ctl.choose(4)
        if op < 2 and now(m) is not None:
            q = t.query(ctl.pick(focus))
            ctl.log("query", q)
            ctl.step(repr(q))
            ask(ctl, t, m, q, "step %d: " % k)
            continue
        if op == 2 and ctl.choose(2):
            fit(ctl, t, m)
            continue
        crash(ctl, t, m, before, focus)
        crashed += 1
    if not crashed:
        crash(ctl, t, m, before, focus)
    fit(ctl, t, m)
    still(before, m, "at the end")
    for name in focus:
        ask(ctl, t, m, t.query(name), "after the last fit: ")


def fit(ctl, t, m):
    f = t.fitcase
    ctl.step("fit")
    ctl.log("fit", f)
    w = lib(ctl, "%r on %s %s" % (f, t.backend, t.inst.describe()), fits.run, m, f)
    fits.judge(m, f, w)


def crash(ctl, t, m, before, focus):
    f = t.fitcase
    old = now(m)
    seen = []

    def op(x):
        r = fits.run(x, f)
        seen.append(now(x))
        return r

    what = "%r on %s %s" % (f, t.backend, t.inst.describe())
    ctl.log("interrupted fit")
    c = lib(ctl, what, faults.disturb, ctl, m, op, t.sc, lambda: t.new(old is not None))
    full = seen[0] if seen else None
    p = now(m)
    at = "%s stopped at %s: " % (what, c.fired)
    ctl.nontrivial |= c.fired is not None
    ctl.count("interrupted")

    def eq(a, b, rtol):
        if a is None or b is None:
            return a is None and b is None
        if a.shape != b.shape:
            return False
        return bool(np.array_equal(a, b) or np.allclose(a, b, rtol=rtol, atol=0, equal_nan=True))

    as_new = full is not None and eq(p, full, 1e-6)
    if c.exc is None and not as_new and full is not None:
        raise Violation("wrong-parameter", at + "returned with %s, alone it gives %s" % (p, full))
    if c.exc is not None and not as_new and not eq(p, old, 0):
        raise Violation(
            "partial-fit",
            at + "parameter %s, before the call %s, after a whole one %s" % (p, old, full),
        )
    if c.exc is not None:
        ctl.label("left:" + ("new" if not eq(p, old, 0) else "old"))
    still(before, m, at)
    if p is None:
        return
    for name in focus[: 1 + ctl.choose(3)]:
        ask(ctl, t, m, t.query(name), at)
