"""C04: distributed samples decide every pair exactly once."""
import numpy as np

from .. import gen, samples, spark, stats
from ..core import Violation
from .common import REAL_SPARK, STUB_SPARK, lib, spark_model

PLAN = {
    "quick": {"int": (3000, 7, 220), "jit": (30, 1, 220)},
    "thorough": {"int": (40000, 6, 1500), "jit": (1000, 2, 1500)},
}
RULE = (
    "one run = one seeded ensemble and 1..12 samples (binary, weighted, with or without"
    " reference graph) on a seeded cluster with faults; each sample is checked for"
    " structure and all of them together for link and weight frequencies;"
    " non-trivial = at least one job with more than one task on more than one executor;"
    " distinct = different sequence of scheduling decisions"
)
REAL = REAL_SPARK + ["graph_ensembles.sparse.graphs (the sampled graph)"]
STUB = STUB_SPARK
ASSUME = [
    "each executor process has its own independently seeded generator",
    "frequency tests have false alarm probability below 1e-14 each",
]


def run(ctl):
    inst = gen.instance(ctl, big=0.2 if ctl.jit else 0.4)
    samples.balance(inst)
    ctl.label("kind:" + inst.kind, "style:" + inst.style, "loops:%s" % inst.selfloops)
    sc, m = spark_model(ctl, inst)
    o = samples.draw(ctl, inst, "spark")
    what = samples.describe(inst, o)
    ctl.log(what, "p_blocks", inst.p_blocks)
    ctl.label("weights:%s" % o.mode)
    tally = stats.Tally(inst.PK(o.loops), what)
    for _ in range(1 + ctl.choose(12)):
        g = lib(ctl, what, samples.ask, m, inst, o)
        W = lib(ctl, "adjacency of " + what, samples.layers, inst, g)
        samples.structure(inst, o, g, W, what)
        samples.record(inst, o, tally, W)
        ctl.obs(W)
        ctl.count("samples")
    n = inst.N
    lags = [1, n, n * n, n + 1, 1 + ctl.choose(n * n), (n // 2) * n, n // 2]
    ctl.count("statistical_tests", tally.judge(lags))
    ctl.count("jobs", sc.jobs)
    ctl.count("tasks", sc.tasks)
