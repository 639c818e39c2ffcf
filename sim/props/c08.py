"""C08: answers do not depend on what was asked before."""
import copy

import numpy as np

from .. import cond, fits, queries, ref, samples, stats, target
from ..core import Discard, Violation
from .common import REAL_SPARK, STUB_SPARK, lib

PLAN = {
    "quick": {"int": (7000, 6, 300), "jit": (100, 2, 300)},
    "thorough": {"int": (60000, 6, 1500), "jit": (3000, 2, 1500)},
}
RULE = (
    "one run = one seeded ensemble (dense, sparse, conditional or on a simulated faulty"
    " Spark cluster) and a seeded history of 3..14 queries, recomputations, samples,"
    " parameter changes and fits, each answer checked against the reference at the current"
    " parameters; non-trivial = the history has at least two different operations; distinct"
    " = different history of (operation, options)"
)
REAL = [
    "graph_ensembles.models, graph_ensembles.sparse.models, graph_ensembles.solver",
] + REAL_SPARK
STUB = STUB_SPARK
ASSUME = [
    "results compare with rtol 1e-8 and atol 1e-10 N",
    "repeated samples within a history are judged by frequency tests of false alarm probability below 1e-14 each",
]


def run(ctl):
    fit = ctl.choose(2) == 1
    t = target.make(ctl, fit=fit, big=0.4 if ctl.choose(8) == 7 else 0.15, extreme=not fit)
    inst = t.inst
    fresh_unfitted = fit and ctl.choose(4) == 3
    m = lib(ctl, "constructor", t.new, not fresh_unfitted)
    ctl.log("instance", t.backend, inst.describe(), t.fitcase if fit else "")
    param, stale = None, False
    n = 3 + ctl.choose(12)
    if t.backend == "spark":
        n = min(n, 7)
    names = t.names()
    focus = [ctl.pick(names) for _ in range(3)]  # revisit the same few queries
    seen = set()
    asked = []
    if fresh_unfitted:
        param = do_fit(ctl, t, m)
    for k in range(n):
        op = ctl.choose(10)
        if op == 9 and fit:
            param, stale = do_fit(ctl, t, m), False
            seen.add("fit")
            continue
        if op == 7 and ctl.choose(2):
            new = assigned(ctl, inst, m)
            if new is not None:
                param, stale = new, True
                seen.add("assign")
                continue
        if op == 8:
            o = t.opts(ref=False) if t.backend != "conditional" else t.opts()
            what = samples.describe(inst, o)
            ctl.step("sample", o.mode, o.selfloops)
            ctl.log(what)
            drawn(ctl, t, m, o, what, param)
            if ctl.choose(2):  # and again at other parameters
                if fit and ctl.choose(2):
                    param, stale = do_fit(ctl, t, m), False
                else:
                    new = assigned(ctl, inst, m, strong=True)
                    param, stale = (param, stale) if new is None else (new, True)
                drawn(ctl, t, m, o, what, param, True)
            seen.add("sample")
            continue
        if op >= 6 and asked:
            q = ctl.pick(asked)  # exactly the same question again
            if q.name.startswith("expected_av_nn") and ctl.choose(2):
                q = queries.sibling(ctl, q)
        else:
            q = t.query(ctl.pick(focus) if op >= 3 else ctl.pick(names))
            asked.append(q)
        if stale:  # after setting the parameters by hand, ask for recomputation
            q = recomputing(q)
        ctl.step(repr(q))
        ctl.log("query", q)
        seen.add(q.name)
        got = lib(ctl, "%r on %s %s" % (q, t.backend, inst.describe()), q.ask, m)
        if param is not None and not np.all(np.isfinite(param)) and q.name == "log_likelihood":
            continue
        if param is not None and q.name in ("log_likelihood", "confusion_matrix"):
            # the graph was drawn for other parameters: it may sit on rounding
            if not judgeable(inst, q, param):
                continue
        q.check(inst, got, param=param, where="%s back end, step %d: " % (t.backend, k))
        ctl.count("queries")
    ctl.nontrivial = len(seen) > 1
    if t.sc is not None:
        ctl.count("jobs", t.sc.jobs)


def drawn(ctl, t, m, o, what, param, many=False):
    """Samples follow the law of the current parameters."""
    inst = t.inst
    if o.weights == "random" and param is not None and not 0 < param[1] < 1:
        o.weights = o.mode = None  # no weights are known
    finite = param is None or np.all(np.isfinite(param))
    if not (finite and (many or ctl.choose(2))):
        lib(ctl, what, samples.ask, m, inst, o)
        return
    k = 1 + (2 if t.backend == "spark" else min(19 if many else 9, 4000 // inst.N**2))
    if t.backend == "conditional":
        now = copy.copy(inst)
        now.param = inst.param if param is None else param
        gs = [lib(ctl, what, samples.ask, m, inst, o) for _ in range(2 * k)]
        Ws = [samples.dense(g.adjacency_matrix(directed=True, weighted=True)) for g in gs]
        for g, W in zip(gs, Ws):
            cond.structure(now, o, g, W, "history, " + what)
        ctl.count("statistical_tests", cond.judge(ctl, now, o, [W != 0 for W in Ws], [], "history, " + what))
        return
    tally = stats.Tally(inst.PK(o.loops, param=param), "history, " + what)
    for _ in range(k):
        W = samples.layers(inst, lib(ctl, what, samples.ask, m, inst, o))
        samples.record(inst, o, tally, W, param)
    ctl.count("statistical_tests", tally.judge())


def assigned(ctl, inst, m, strong=False):
    """Set other parameters on the object directly."""
    old = np.asarray(m.param, float)
    if not np.all(np.isfinite(old)) or not np.all(old > 0):
        return None
    if inst.kind == "random":
        new = old.copy()
        new[0] = [0.35, 0.05, 0.7][ctl.choose(3)]
    else:
        new = old * ([0.02, 50.0] if strong else [0.4, 2.5, 0.9, 1.3])[ctl.choose(2 if strong else 4)]
    m.param = new.copy()
    ctl.step("assign", new.tolist())
    ctl.log("param =", new.tolist())
    return new


def recomputing(q):
    q = copy.copy(q)
    q.a = dict(q.a, recompute=True, deg_recompute=True)
    q.recompute = True
    return q


def judgeable(inst, q, param):
    if inst.kind == "conditional":
        return True
    if q.name == "confusion_matrix":
        P = inst.P(True, param).ravel()
        return not any(np.any(np.abs(P - th) < 1e-9) for th in q.a["thresholds"])
    m = inst.mask(q.loops(inst)) > 0
    A = q.a["adj"]
    pairs = zip(inst.logs(param), A) if isinstance(A, list) else [(inst.logs_any(param), A)]
    for (lp, lq), x in pairs:
        on, off = m & (x != 0), m & (x == 0)
        if np.any(on & (lp < -23)) or np.any(off & (lq < -600)):
            return False
    return True


def do_fit(ctl, t, m):
    f = t.fitcase
    ctl.step("fit", repr(f))
    ctl.log("fit", f)
    warned = lib(ctl, "%r on %s %s" % (f, t.backend, t.inst.describe()), fits.run, m, f)
    fits.judge(m, f, warned)
    ctl.count("fits")
    return np.asarray(m.param, float).copy()
