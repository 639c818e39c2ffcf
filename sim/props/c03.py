"""C03: distributed calibration reaches its target."""
import numpy as np

from .. import fits, gen, observed, queries, spark
from .common import REAL_SPARK, STUB_SPARK, lib

PLAN = {
    "quick": {"int": (4200, 7, 220), "jit": (30, 1, 220)},
    "thorough": {"int": (60000, 6, 1500), "jit": (1000, 2, 1500)},
}
RULE = (
    "one run = one seeded ensemble with a feasible target (0.1%..99% of the largest"
    " attainable), a starting point and tolerances, fitted on a seeded cluster with"
    " faults; non-trivial = at least one job with more than one task on more than one"
    " executor; distinct = different sequence of scheduling decisions"
)
REAL = REAL_SPARK + ["graph_ensembles.solver"]
STUB = STUB_SPARK
ASSUME = [
    "the target is at most 99% of the largest attainable expectation",
    "bounded progress: at most 3 maxiter + 20 jobs",
]


def run(ctl):
    if ctl.choose(5) == 4:
        sc = spark.cluster(ctl, max_jobs=600)
        observed.fit(ctl, sc)
        ctl.count("jobs", sc.jobs)
        return
    inst = gen.instance(ctl, dyads=False, extreme=False, big=0.2 if ctl.jit else 0.4)
    ctl.label("kind:" + inst.kind, "style:" + inst.style, "loops:%s" % inst.selfloops)
    fit = fits.draw(ctl, inst)
    sc = spark.cluster(ctl, max_jobs=3 * fit.kw.get("maxiter", 100) + 20)
    pb = gen.blocks(ctl, inst.N)
    ctl.log("instance", inst.describe(), "p_blocks", pb, fit)
    m = lib(ctl, "constructor", fits.build, inst, fit, "spark", sc, pb)
    warned = lib(ctl, "%r on %s" % (fit, inst.describe()), fits.run, m, fit)
    fits.judge(m, fit, warned)
    ctl.obs(np.asarray(m.param, float))
    sc._profile["max_jobs"] = 10**6
    # what was fitted is what the ensemble answers
    for name in ("expected_num_edges",) + (("expected_num_edges_label",) if inst.multi else ()):
        q = queries.Query(name)
        q.check(inst, lib(ctl, repr(q), q.ask, m), param=np.asarray(m.param, float))
    ctl.count("jobs", sc.jobs)
    ctl.count("tasks", sc.tasks)
    ctl.label("x0:%s" % ("x0" in fit.kw), "maxiter:%s" % ("maxiter" in fit.kw))
