"""C11: link frequencies, independence and weight law of samples."""
import numpy as np

from .. import deep, gen, rngseam, samples, stats
from .c10 import REAL
from .common import lib

PLAN = {
    "quick": {"int": (2500, 6, 220), "jit": (60, 2, 220)},
    "thorough": {"int": (40000, 6, 1500), "jit": (2500, 2, 1500)},
}
RULE = (
    "one run = one seeded ensemble (dense or sparse, 5 kinds) and 10..80 samples from one"
    " seeded random stream (interpreted or compiled kernels), tested together against the"
    " exact link probabilities, independence at several distances and the weight law;"
    " non-trivial = some pair has a probability strictly between 0 and 1; distinct ="
    " different (ensemble, stream)"
)
STUB = ["operating system entropy (generators of both numpy and numba are seeded per run)"]
ASSUME = ["each frequency test has false alarm probability below 1e-14 (Bernstein / Chernoff)"]


def run(ctl):
    backend = ctl.pick(["dense", "sparse"])
    small = ctl.choose(10) == 9 and not ctl.jit
    inst = gen.instance(ctl, big=0.4 if ctl.choose(8) == 7 else 0.2, N=2 + ctl.choose(4) if small else None)
    samples.balance(inst)
    o = samples.draw(ctl, inst, backend)
    what = samples.describe(inst, o)
    ctl.label("backend:" + backend, "kind:" + inst.kind, "weights:%s" % o.mode)
    m = lib(ctl, "constructor", gen.build, inst, backend)
    P = inst.PK(o.loops)
    if small:
        free = [(l, i, j) for l, p in enumerate(P) for i, j in np.argwhere((p > 0) & (p < 1)).tolist()]
        if len(free) > 24:
            free = free[:24]
        p1 = np.array([P[l][i, j] for l, i, j in free])

        def one():
            W = samples.layers(inst, samples.ask(m, inst, o))
            return np.array([W[l][i, j] != 0 for l, i, j in free])

        ctl.step("deep", what)
        ctl.nontrivial = bool(free)
        return lib(ctl, what, deep.check, ctl, one, free, p1, np.multiply.outer(p1, p1), what, draws=inst.N**2 * len(P), tol=0.006)
    tally = stats.Tally(P, what)
    k = 10 + ctl.choose(71)
    if inst.N > 15 and not ctl.jit:
        k = min(k, 1 + 40 * 225 // inst.N**2)
    s = ctl.seed32()
    ctl.log(what, "samples", k, "stream", s)
    ctl.step(what, s)
    rngseam.seed(s)
    for _ in range(k):
        g = lib(ctl, what, samples.ask, m, inst, o)
        W = samples.layers(inst, g)
        samples.record(inst, o, tally, W)
        ctl.count("samples")
    n = inst.N
    lags = [1, 2, n, n * n, n + 1, n - 1, 1 + ctl.choose(n * n), n * n * len(P)]
    ctl.count("statistical_tests", tally.judge(lags))
    ctl.obs([len(tally.unit), [int(a.sum()) for s_ in tally.seen for a in s_]])
    if any(((p > 0) & (p < 1)).any() for p in P):
        ctl.nontrivial = True
