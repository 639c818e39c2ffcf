"""C02: distributed likelihood and confusion counts."""
import numpy as np

from .. import gen, queries
from ..core import Violation
from .common import REAL_SPARK, STUB_SPARK, lib, spark_model

PLAN = {
    "quick": {"int": (5000, 7, 220), "jit": (40, 1, 220)},
    "thorough": {"int": (70000, 6, 1500), "jit": (1200, 2, 1500)},
}
RULE = (
    "one run = one seeded ensemble (5 kinds, N 2..90) and a seeded sequence of observed"
    " graphs (7 input forms, weighted or not, impossible links included) scored on a"
    " seeded cluster with faults; non-trivial = at least one job with more than one task"
    " on more than one executor; distinct = different sequence of scheduling decisions"
)
REAL = REAL_SPARK
STUB = STUB_SPARK
ASSUME = [
    "likelihoods compare with rtol 1e-8 and atol 1e-7 N^2; confusion counts are exact",
    "thresholds lie between attained probabilities, or equal one that is exactly representable",
]


def run(ctl):
    inst = gen.instance(ctl, big=0.4 if ctl.jit else 0.7)
    ctl.label("kind:" + inst.kind, "style:" + inst.style, "loops:%s" % inst.selfloops)
    sc, m = spark_model(ctl, inst)
    ctl.log("instance", inst.describe(), "p_blocks", inst.p_blocks)
    names = queries.names(inst, ("like", "confusion"))
    for _ in range(1 + ctl.choose(3)):
        q = queries.make(ctl, inst, ctl.pick(names))
        ctl.log("query", q)
        got = lib(ctl, repr(q) + " on %s" % inst.describe(), q.ask, m)
        if q.name == "confusion_matrix":
            tot = sum(np.asarray(x) for x in got)
            pairs = int(inst.mask(q.loops(inst)).sum())
            if not np.all(tot == pairs):
                raise Violation(
                    "count-not-conserved",
                    "%r on %s: counts add to %s, not %d" % (q, inst.describe(), tot.tolist(), pairs),
                )
        q.check(inst, got)
        ctl.count("queries")
        ctl.label("form:" + q.a["form"])
    ctl.count("jobs", sc.jobs)
    ctl.count("tasks", sc.tasks)
