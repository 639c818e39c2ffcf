import numpy as np

from .. import gen, queries, ref, spark
from ..core import Discard, StepBudget, Unsupported, Violation

REAL_SPARK = [
    "graph_ensembles.spark (whole package, driver and task side)",
    "pyspark.RDD algebra (fold, reduce, aggregate, map, collect ...)",
    "pyspark.cloudpickle closure serialisation, pickle of blocks and results",
    "numpy, scipy, numba-decorated kernels (interpreted, and compiled in the jit mode)",
]
STUB_SPARK = [
    "JVM, driver/executor processes, network and shuffle service (SimSparkContext)",
    "wall clock and task durations (simulated time)",
    "operating system entropy (all generators seeded per simulated process)",
]


def lib(ctl, what, fn, *a, **k):
    """Call the library; an exception on valid input is a violation."""
    try:
        r = fn(*a, **k)
    except (Violation, Discard, Unsupported, StepBudget):
        raise
    except Exception as e:
        if is_harness(e):
            raise
        raise Violation(
            "raised-" + type(e).__name__, "%s raised %s: %s" % (what, type(e).__name__, str(e)[:300])
        )
    ctl.obs(r)
    return r


def is_harness(e):
    """True when the innermost library/harness frame is harness code."""
    if isinstance(e, spark.SimClosureError):
        return False
    tb = e.__traceback__
    last = None
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if "/sim/" in f and "/verif" in f:
            last = "h"
        elif "graph_ensembles" in f and "site-packages" not in f:
            last = "l"
        tb = tb.tb_next
    # harness frames below a library frame are the simulated cluster running
    # tasks; a task's own library frame comes after them
    return last == "h"


def spark_model(ctl, inst, faults=True, sc=None, **kw):
    if sc is None:
        sc = spark.cluster(ctl, faults=faults)
    inst.p_blocks = gen.blocks(ctl, inst.N)
    m = lib(ctl, "constructor of " + inst.kind, gen.build, inst, "spark", sc, p_blocks=inst.p_blocks, **kw)
    return sc, m
