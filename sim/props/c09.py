"""C09: concurrent callers of one ensemble or graph get sequential answers."""
import copy

from .. import faults, gen, graphcase, queries, rngseam, samples, target, threads
from ..core import Discard, StepBudget, Unsupported, Violation
from .common import REAL_SPARK, STUB_SPARK, is_harness, lib

PLAN = {
    "quick": {"int": (14000, 7, 300), "jit": (16, 1, 200)},
    "thorough": {"int": (120000, 7, 1500), "jit": (1000, 1, 1500)},
}
RULE = (
    "one run = one seeded ensemble (any back end) or graph and 2 or 3 threads, each with 1 to"
    " 3 queries or samples on it, run one at a time by a scheduler that switches at 1 to 6"
    " seeded points of library code; every result is compared with the sequential"
    " reference (in a share of the runs all threads ask one question, already known, with and"
    " without recomputation), and so are questions asked after all threads ended; non-trivial = at least"
    " one switch inside a call; distinct = different sequence of (thread, switch point)"
)
REAL = ["graph_ensembles: both models and graphs modules, in real threads"] + REAL_SPARK
STUB = STUB_SPARK + ["the operating system's thread scheduler (one thread runs at a time)"]
ASSUME = [
    "threads switch at function entries, at lines with calls, arithmetic or loop edges, and when such a call has returned",
    "a Spark job is atomic for the driver's threads; fits are not run concurrently",
]


class Op:
    def __init__(self, name, ask, check, q=None):
        self.name, self.ask, self.check, self.q = name, ask, check, q


def ensemble(ctl, contend):
    backends = target.MEM if contend and ctl.choose(3) else target.ALL
    t = target.make(ctl, backends, N=2 + ctl.choose(4) if contend else gen.few(ctl, 4, 10), extreme=False, faults=False)
    inst = t.inst
    m = lib(ctl, "constructor", t.new)
    ctl.log("ensemble", t.backend, inst.describe())
    names = t.names()
    focus = [ctl.pick(names) for _ in range(1 + ctl.choose(2))]
    if contend and ctl.choose(3):
        focus = [ctl.pick([n for n in names if n in queries.SIMPLE])]

    def op(sample=True):
        if sample and ctl.choose(6) == 5:
            o = t.opts()
            what = samples.describe(inst, o)
            return Op(what, lambda x: samples.ask(x, inst, o), lambda g, w: t.sample_check(o, g, w + what))
        q = t.query(ctl.pick(focus) if ctl.choose(5) else ctl.pick(names))
        return as_op(q)

    def as_op(q):
        return Op(repr(q), q.ask, lambda got, w: q.check(inst, got, where=w), q)

    def vary(q, rec):
        q = copy.copy(q)
        q.recompute = rec
        q.a = dict(q.a, recompute=rec, deg_recompute=rec) if q.a else q.a
        if q.name in queries.SIMPLE and isinstance(q, queries.Query):
            q.a = dict(recompute=rec)
        return as_op(q)

    return t.new, m, op, t.sc, vary


def graph(ctl, contend):
    c = graphcase.case(ctl, small=4 if contend else 6)
    backend = ["sparse", "dense"][ctl.choose(2)]
    g = lib(ctl, "constructor", c.build, backend)
    ctl.label("backend:graph-" + backend)
    ctl.log("graph", backend, c.describe())
    names = graphcase.names(c)
    focus = [ctl.pick(names) for _ in range(1 + ctl.choose(2))]

    def op(sample=True):
        q = graphcase.query(ctl, c, ctl.pick(focus) if ctl.choose(5) else ctl.pick(names))
        return as_op(q)

    def as_op(q):
        return Op(repr(q), q.ask, lambda got, w: q.check(c, got, w), q)

    def vary(q, rec):
        k = {a: b for a, b in q.k.items() if a not in ("recompute", "deg_recompute")}
        if rec and not q.name.startswith("adjacency") and q.name != "to_networkx":
            k["deg_recompute" if q.name.startswith("average_nn") else "recompute"] = True
        return as_op(graphcase.Ask(q.name, **k))

    return lambda: c.build(backend), g, op, None, vary


def run(ctl):
    contend = bool(ctl.choose(2))
    new, obj, op, sc, vary = (graph if ctl.choose(5) >= 3 else ensemble)(ctl, contend)
    first = None
    if contend:  # the same question, known already, asked again and recomputed
        q = op(False).q
        first = vary(q, False)
        ctl.label("contended")
    elif ctl.choose(3) == 2:  # some results are there already
        first = op(False)
    jobs = [
        [vary(q, bool(ctl.choose(2))) if contend else op() for _ in range(1 + ctl.choose(2 if contend else 3))]
        for _ in range(2 + (ctl.choose(4) == 3))
    ]
    if contend and ctl.choose(2):  # a reader against a writer
        jobs[:2] = [[vary(q, False)], [vary(q, True)]]
    for i, ops in enumerate(jobs):
        ctl.log("thread", i, "asks", [o.name for o in ops])
    by_method = contend or ctl.choose(4) > 0
    if sc is not None or not contend:
        return schedule(ctl, obj, new, op, sc, first, jobs, by_method)
    for _ in range(4):  # several schedules of the same contention
        schedule(ctl, obj, new, op, sc, first, jobs, by_method)
        obj = lib(ctl, "constructor", new)


def schedule(ctl, obj, new, op, sc, first, jobs, by_method):
    before = target.snapshot(obj)
    if first is not None:
        ctl.log("first", first.name)
        first.check(lib(ctl, first.name, first.ask, obj), "")
    # length of the schedule, rehearsed on a copy one thread after the other
    t = faults.twin(obj, sc)
    if t is None:
        t = new()
    rngseam.seed(ctl.seed32())

    def rehearse():
        for ops in jobs:
            for o in ops:
                o.ask(t)

    _, meth, total = lib(ctl, "alone", faults.survey, rehearse, fine=True)
    pre = threads.plan(ctl, len(meth) if by_method else total)
    watch = obj if by_method and ctl.choose(3) else None

    def body(ops):
        return lambda: [o.ask(obj) for o in ops]

    s = threads.Scheduler(ctl, [body(ops) for ops in jobs], pre, by_method, watch)
    ended = s.run()
    ctl.nontrivial = ctl.nontrivial or bool(s.switches)
    ctl.count("switches", len(s.switches))
    sw = "switches %s: " % (s.switches,)
    if not ended:
        raise Violation("deadlock", sw + "threads wait for each other")
    for task, ops in zip(s.tasks, jobs):
        e = task.exc
        if e is not None:
            if isinstance(e, (Violation, Discard, Unsupported, StepBudget)):
                raise e
            if not isinstance(e, Exception) or is_harness(e):
                raise e
            raise Violation(
                "raised-" + type(e).__name__,
                "%sthread %d asking %s raised %s: %s"
                % (sw, task.name, [o.name for o in ops], type(e).__name__, str(e)[:200]),
            )
        for o, got in zip(ops, task.result):
            ctl.obs(got)
            lib(ctl, o.name, o.check, got, "%sthread %d: " % (sw, task.name))
    target.same(before, obj, sw)
    for o in [x for ops in jobs for x in ops][:3] + [op(False)]:
        lib(ctl, o.name, o.check, lib(ctl, sw + o.name, o.ask, obj), sw + "afterwards: ")
