"""C16: pagerank and trophic depth of a graph."""
import contextlib
import io

import numpy as np

from .. import faults, gen, graphcase, rngseam, samples, target, threads
from ..core import Discard, StepBudget, Unsupported, Violation
from .common import is_harness, lib

PLAN = {
    "quick": {"int": (5600, 7, 200), "jit": (60, 1, 200)},
    "thorough": {"int": (120000, 7, 1500), "jit": (3000, 1, 1500)},
}
RULE = (
    "one run = one sparse graph (built from a seeded list, or sampled from a seeded ensemble)"
    " and a seeded history of rankings, trophic depths and graph questions on it, some cut"
    " short by KeyboardInterrupt or MemoryError at a chosen line, or made from two threads"
    " that switch at seeded points; every result is compared with the sequence of iterates"
    " computed by dense algebra; non-trivial = a fault or a switch inside a call, or two"
    " different calls; distinct = different history of (call, options, fault point)"
)
REAL = ["graph_ensembles.lib, graph_ensembles.sparse.graphs, sampling of sparse ensembles"]
STUB = ["the operating system's thread scheduler and random entropy (seeded)"]
ASSUME = [
    "iterates compare with rtol 1e-9; whether a step is below the tolerance is judged to 1e-6 of it",
    "at least one iteration is allowed; weights between 1e-12 and 1e15",
]


class Measure:
    """One call of the library with its options, and the iterates it may give."""

    def __init__(self, ctl, W, B):
        self.N = len(W)
        self.W, self.B = W, B
        self.kw = {}
        r = gen.rs(ctl)
        self.name = ["pagerank", "trophic_depth"][ctl.choose(2)]
        if ctl.choose(2):
            self.kw["max_iter"] = [1, 2, 5, 20, 400][ctl.choose(5)]
        if ctl.choose(2):
            self.kw["tol"] = [1e-2, 1e-4, 1e-9, 1e-13][ctl.choose(4)]
        self.final = None
        if self.name == "pagerank":
            if ctl.choose(2):
                self.kw["alpha"] = [0.5, 0.99, 0.1, 0.85][ctl.choose(4)]
            if ctl.choose(2):
                self.kw["weighted"] = bool(ctl.choose(2))
        else:
            s = W.sum(1)
            top = float(np.median(s[s > 0])) if np.any(s > 0) else 1.0
            how = ctl.choose(4)
            self.final = [
                lambda: r.rand(self.N) * top,
                lambda: r.rand(self.N) * top * (r.rand(self.N) < 0.5),
                lambda: np.zeros(self.N),
                lambda: s * r.rand(),
            ][how]()

    def __repr__(self):
        return "%s(%s)" % (self.name, ", ".join("%s=%r" % kv for kv in sorted(self.kw.items())))

    def call(self, g):
        import graph_ensembles.lib as m

        if self.name == "pagerank":
            return m.pagerank(g, **self.kw)
        f = self.final.copy()
        try:
            return m.trophic_depth(g, f, **self.kw)
        finally:
            if not np.array_equal(f, self.final):
                raise Violation("input-changed", "%r changed the final demand" % self)

    def ask(self, g):
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            r = self.call(g)
        return r, out.getvalue()

    def iterates(self):
        if self.name == "pagerank":
            A = self.W if self.kw.get("weighted", True) else self.B.astype(float)
            a = self.kw.get("alpha", 0.85)
            s = A.sum(1)
            T = np.where(s[:, None] > 0, A / np.where(s > 0, s, 1)[:, None], 1.0 / self.N)
            x = np.full(self.N, 1.0 / self.N)
            while True:
                yield x
                x = a * x.dot(T) + (1 - a) / self.N
        s = self.W.sum(1) + self.final
        x = self.final
        while True:
            yield x
            u = self.W.dot(x + 1) + self.final
            x = np.where(s != 0, u / np.where(s != 0, s, 1), 0.0)

    def check(self, got, where, what):
        got, said = got
        got = np.asarray(got, float)
        limit = self.kw.get("max_iter", 100)
        tol = self.kw.get("tol", 1e-6 if self.name == "pagerank" else 1e-3)
        where = "%s%r on %s: " % (where, self, what)
        if got.shape != (self.N,):
            raise Violation("wrong-" + self.name, where + "shape %s" % (got.shape,))
        last, may = None, []
        for k, x in enumerate(self.iterates()):
            if last is not None:
                d = np.max(np.abs(x - last))
                eps = 1e-6 * tol + 1e-14 * max(1.0, np.max(np.abs(x)))
                if d < tol + eps:
                    may.append((x, "Converged"))
                    if d < tol - eps:
                        break
                if k == limit:
                    may.append((x, "Stopped"))
                    break
            last = x
        for x, end in may:
            if np.all(np.abs(got - x) <= 1e-9 * np.abs(x) + 1e-13):
                break
        else:
            x, end = may[-1]
            k = int(np.argmax(np.abs(got - x)))
            raise Violation(
                "wrong-" + self.name,
                where + "%r instead of %r at %d (%s after %d steps)" % (float(got[k]), float(x[k]), k, end.lower(), limit),
            )
        ends = {e for x, e in may}
        for word in ("Converged", "Stopped"):
            if said.startswith(word) and word not in ends:
                raise Violation("false-report", where + "said %r" % said.strip())
        if self.name == "pagerank" and abs(got.sum() - 1) > 1e-9:
            raise Violation("not-conserved", where + "ranks add to %r" % float(got.sum()))


def listed(ctl):
    for _ in range(20):
        c = graphcase.case(ctl, small=9 if ctl.choose(4) else None, big=0.02)
        if not c.weighted or (c.T[c.B].max() < 1e16 and c.T[c.B].min() > 1e-13):
            break
    else:
        raise Discard("weights out of range")
    g = lib(ctl, "constructor of %s" % c.describe(), c.build, "sparse")
    B = c.B.any(0)
    M = c.T.sum(0) if c.weighted else B.astype(float)
    if not c.directed:
        B, M = graphcase.symb(B), graphcase.sym(M, c.weighted)
    names = graphcase.names(c)

    def ask():
        q = graphcase.query(ctl, c, ctl.pick(names))
        q.check(c, lib(ctl, "%r on %s" % (q, c.describe()), q.ask, g))
        return repr(q)

    return g, M, B, c.describe(), ask


def sampled(ctl):
    inst = gen.instance(ctl, dyads=False, N=gen.few(ctl, 12), extreme=False)
    samples.balance(inst)
    m = lib(ctl, "constructor", gen.build, inst, "sparse")
    o = samples.draw(ctl, inst, "sparse", ref=False)
    rngseam.seed(ctl.seed32())
    what = samples.describe(inst, o)
    g = lib(ctl, what, samples.ask, m, inst, o)
    W = samples.layers(inst, g)
    B = np.any([w != 0 for w in W], axis=0)
    # without weights a pair has one link, however many labels it has
    M = sum(np.asarray(w, float) for w in W) if o.mode is not None else B.astype(float)
    return g, M, B, what, None


def run(ctl):
    g, M, B, what, ask = (sampled if ctl.choose(4) == 3 else listed)(ctl)
    ctl.log("graph", what)
    snap = target.snapshot(g)
    seen, hit = set(), False
    failed = None
    for k in range(1 + ctl.choose(4)):
        op = ctl.choose(6)
        if op == 5 and ask is not None:
            seen.add(ask())
            continue
        q = Measure(ctl, M, B)
        ctl.log("call", q)
        ctl.step(repr(q))
        seen.add(repr(q))
        at = repr(q)
        if op == 4:
            hit |= together(ctl, g, [q, Measure(ctl, M, B)], what)
        elif op >= 2:
            r = lib(ctl, "%r on %s" % (q, what), faults.disturb, ctl, g, q.ask)
            hit |= r.fired is not None
            at = "%r stopped at %s" % (q, r.fired)
            failed = q
            if r.exc is None:
                q.check(r.result, at + ": ", what)
        else:
            q.check(lib(ctl, "%r on %s" % (q, what), q.ask, g), "step %d: " % k, what)
        target.same(snap, g, at)
        ctl.count("calls")
    if failed is not None:
        q = failed
        q.check(lib(ctl, "%r again on %s" % (q, what), q.ask, g), "after an interrupted call: ", what)
    if ask is not None:
        ask()
    ctl.nontrivial = hit or len(seen) > 1


def together(ctl, g, qs, what):
    qs = [q for q in qs if q.kw.get("max_iter", 100) <= 100]
    if len(qs) < 2:
        return False
    _, meth, total = faults.survey(lambda: [q.ask(g) for q in qs])
    pre = threads.plan(ctl, min(total, 4000))
    s = threads.Scheduler(ctl, [(lambda q=q: q.call(g)) for q in qs], pre, False)
    with contextlib.redirect_stdout(io.StringIO()):
        ended = s.run()
    if not ended:
        raise Violation("deadlock", "two threads computing %r on %s" % (qs, what))
    sw = "switches %s: " % (s.switches,)
    for t, q in zip(s.tasks, qs):
        e = t.exc
        if e is not None:
            if isinstance(e, (Violation, Discard, Unsupported, StepBudget)) or is_harness(e):
                raise e
            raise Violation("raised-" + type(e).__name__, "%s%r on %s raised %s" % (sw, q, what, str(e)[:200]))
        q.check((t.result, ""), sw, what)
    return bool(s.switches)
