"""Precise estimation of link probabilities on small ensembles.

Screening: the uniform draws of each sample follow a scrambled Sobol sequence
(each sample is still a uniform draw), so link frequencies and joint
frequencies converge much faster than with independent draws.  A frequency
that looks wrong is then *confirmed* with independent samples and a Bernstein
bound, and only a confirmed one is reported: screening cannot raise an alarm.
"""
import warnings

import numpy as np

from . import rngseam, stats
from .core import Violation

TOL = 0.012
CAP = 100000


def check(ctl, draw, idx, p1, p2, what, n=1024, draws=None, tol=TOL):
    """draw() -> flat 0/1 vector over the free decisions `idx` (labels).
    p1: probabilities; p2: joint probabilities (d, d) or None."""
    d = len(idx)
    if d == 0 or ctl.jit:
        return
    from scipy.stats import qmc

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        U = qmc.Sobol(min(max(draws or d, d), 200), scramble=True, seed=ctl.seed32()).random(n)
    s0 = ctl.seed32()
    X = np.zeros((n, d))
    for k in range(n):
        with rngseam.Scripted("row", (s0 + k) & 0x7FFFFFFF, row=U[k].tolist()):
            X[k] = draw()
    ctl.count("screened_samples", n)
    f1 = X.mean(0)
    ctl.obs(f1)
    J = X.T.dot(X) / n
    bad = []
    dev = np.abs(f1 - p1)
    u = int(np.argmax(dev))
    if dev[u] > tol:
        bad.append((dev[u], "frequency", "link %s" % (idx[u],), (u,), float(p1[u])))
    if p2 is not None and d > 1:
        D = np.abs(J - p2)
        np.fill_diagonal(D, 0.0)
        a, b = np.unravel_index(int(np.argmax(D)), D.shape)
        if D[a, b] > 2 * tol:
            bad.append(
                (D[a, b], "dependence", "links %s and %s together" % (idx[a], idx[b]), (a, b), float(p2[a, b]))
            )
    for delta, kind, name, cols, p in bad:
        v = max(p * (1 - p), 1e-4)
        m = int(min(CAP, 1.6 * (2 * stats.LOG * v / delta**2 + 2 * stats.LOG / delta)))
        rngseam.seed(ctl.seed32())
        x = k = 0
        look = min(m, int(20 * v / delta**2) + 50)
        while k < m:
            x += int(np.all(draw()[list(cols)] != 0))
            k += 1
            if k == look:
                if abs(x / k - p) < delta / 2:
                    break  # an accident of the screening
        ctl.count("confirmation_samples", k)
        m = k
        ok, mu, bd = stats.bern(x, np.full(m, min(max(p, 0.0), 1.0)))
        if not ok:
            raise Violation(
                "sample-" + kind,
                "%s: %s over %d samples: observed %d, expected %.2f, possible deviation %.2f"
                % (what, name, m, x, mu, bd),
            )
        ctl.count("screening_not_confirmed")
