"""C01: distributed expectations equal the exact sums over pairs."""
from .. import gen, queries
from .common import REAL_SPARK, STUB_SPARK, lib, spark_model

PLAN = {
    "quick": {"int": (4000, 7, 220), "jit": (60, 1, 220)},
    "thorough": {"int": (60000, 6, 1500), "jit": (1500, 2, 1500)},
}
RULE = (
    "one run = one seeded ensemble (5 kinds, N 2..90, fitness style, density, labels,"
    " block count) on a seeded cluster (1-4 executors, fault mix), then a seeded"
    " sequence of expectation queries; non-trivial = at least one job with more than"
    " one task on more than one executor; distinct = different sequence of"
    " (launch, completion, loss) scheduling decisions"
)
REAL = REAL_SPARK
STUB = STUB_SPARK
ASSUME = [
    "a task attempt's effects other than its result and cached block are lost with it, as in Spark",
    "results compare with rtol 1e-8 and atol 1e-10 N (sums may be reordered)",
]


def run(ctl):
    inst = gen.instance(ctl, big=0.4 if ctl.jit else 1.0)
    ctl.label("kind:" + inst.kind, "style:" + inst.style, "loops:%s" % inst.selfloops)
    sc, m = spark_model(ctl, inst)
    ctl.log("instance", inst.describe(), "p_blocks", inst.p_blocks)
    names = queries.names(inst)
    n = 1 + ctl.choose(5)
    if inst.N > 30:
        n = min(n, 3)
    for _ in range(n):
        q = queries.make(ctl, inst, ctl.pick(names))
        ctl.log("query", q)
        j0 = sc.jobs
        got = lib(ctl, repr(q) + " on %s" % inst.describe(), q.ask, m)
        q.check(inst, got)
        ctl.count("queries")
        ctl.count("jobs", sc.jobs - j0)
    ctl.count("tasks", sc.tasks)
