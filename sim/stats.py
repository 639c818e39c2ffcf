"""Sound statistical judgement of samples (Bernstein bounds, no tuning).

Every test is an event of probability below EPS when links are independent
Bernoulli variables with the reference probabilities (and weights have the
reference law), whatever way the code draws them.
"""
import numpy as np

from .core import Violation

EPS = 1e-14
LOG = float(np.log(2.0 / EPS))


def bern(x, p):
    """x: observed successes; p: array of probabilities of the trials."""
    p = np.asarray(p, float)
    mu = p.sum()
    v = (p * (1 - p)).sum()
    bound = np.sqrt(2 * v * LOG) + (2.0 / 3.0) * LOG
    # trials with p exactly 0 leave no freedom at all
    if mu == 0:
        bound = 0.0
    return abs(x - mu) <= bound + 1e-9 * (1 + mu), mu, bound


def exp_sum(s, n):
    """Sum of n unit exponentials: Chernoff bound on both sides."""
    if n == 0:
        return True
    r = s / n
    if r <= 0:
        return False
    return n * (r - 1 - np.log(r)) <= LOG


class Tally:
    """Samples of one ensemble: layers of 0/1 matrices, optional weights."""

    def __init__(self, P, where):
        self.P = [np.asarray(p, float) for p in P]  # masked probabilities
        self.N = self.P[0].shape[0]
        self.L = len(self.P)
        self.where = where
        self.seen = []
        self.unit = []  # weights over their conditional mean (law Exp(1))
        self.geo = []  # discrete weights
        self.q = None

    def add(self, A):
        self.seen.append([np.asarray(a) != 0 for a in A])

    def fail(self, kind, what, x, mu, b):
        raise Violation(
            "sample-" + kind,
            "%s: %s over %d samples: observed %s, expected %.2f, possible deviation %.2f"
            % (self.where, what, len(self.seen), x, mu, b),
        )

    def judge(self, lags=()):
        k = len(self.seen)
        if k == 0:
            return 0
        n = self.N
        tests = 0
        for l in range(self.L):
            P = self.P[l]
            C = np.sum([s[l] for s in self.seen], axis=0)
            if np.any((P == 0) & (C > 0)):
                i, j = np.argwhere((P == 0) & (C > 0))[0]
                self.fail("impossible-link", "pair (%d, %d) label %d" % (i, j, l), C[i, j], 0.0, 0.0)
            groups = [("all pairs", slice(None), slice(None))]
            h = (n + 1) // 2
            groups += [
                ("first rows", slice(0, h), slice(None)),
                ("last rows", slice(h, n), slice(None)),
                ("first columns", slice(None), slice(0, h)),
                ("last columns", slice(None), slice(h, n)),
                ("first quadrant", slice(0, h), slice(0, h)),
                ("second quadrant", slice(0, h), slice(h, n)),
                ("third quadrant", slice(h, n), slice(0, h)),
                ("last quadrant", slice(h, n), slice(h, n)),
            ]
            for name, a, b in groups:
                ok, mu, bd = bern(C[a, b].sum(), np.repeat(P[a, b].ravel(), k))
                tests += 1
                if not ok:
                    self.fail("frequency", "%s label %d" % (name, l), C[a, b].sum(), mu, bd)
            for nm, tri in (("upper triangle", np.triu(np.ones((n, n)), 1) > 0),
                            ("lower triangle", np.tril(np.ones((n, n)), -1) > 0),
                            ("diagonal", np.eye(n) > 0)):
                ok, mu, bd = bern(C[tri].sum(), np.repeat(P[tri], k))
                tests += 1
                if not ok:
                    self.fail("frequency", "%s label %d" % (nm, l), C[tri].sum(), mu, bd)
            V = k * P * (1 - P)
            for nm, c, mu, v in (
                ("row", C.sum(1), k * P.sum(1), V.sum(1)),
                ("column", C.sum(0), k * P.sum(0), V.sum(0)),
                ("pair", C.ravel(), k * P.ravel(), V.ravel()),
            ):
                bd = np.where(mu > 0, np.sqrt(2 * v * LOG) + (2.0 / 3.0) * LOG, 0.0)
                bad = np.abs(c - mu) > bd + 1e-9 * (1 + mu)
                tests += len(c)
                if np.any(bad):
                    i = int(np.argmax(bad))
                    self.fail("frequency", "%s %d label %d" % (nm, i, l), c[i], mu[i], bd[i])
            # probability classes: calibration of p
            pr = P.ravel()
            for lo, hi in ((0, 0.05), (0.05, 0.2), (0.2, 0.4), (0.4, 0.6), (0.6, 0.8), (0.8, 0.95), (0.95, 1)):
                s = (pr > lo) & (pr <= hi)
                if s.any():
                    x = C.ravel()[s].sum()
                    ok, mu, bd = bern(x, np.repeat(pr[s], k))
                    tests += 1
                    if not ok:
                        self.fail("frequency", "pairs with p in (%s, %s] label %d" % (lo, hi, l), x, mu, bd)
            # reciprocity
            up = np.triu_indices(n, 1)
            q = (P * P.T)[up]
            x = sum((s[l] & s[l].T)[up].sum() for s in self.seen)
            ok, mu, bd = bern(x, np.repeat(q, k))
            tests += 1
            if not ok:
                self.fail("dependence", "reciprocated pairs label %d" % l, x, mu, bd)
        # independence at a distance in the flattened order of all decisions
        flat = np.concatenate([a.ravel() for s in self.seen for a in s])
        pf = np.tile(np.concatenate([p.ravel() for p in self.P]), k)
        m = len(flat)
        for h in lags:
            if h <= 0 or 2 * h > m:
                continue
            c = np.arange(m - h)
            c = c[(c // h) % 2 == 0]
            x = (flat[c] & flat[c + h]).sum()
            ok, mu, bd = bern(x, pf[c] * pf[c + h])
            tests += 1
            if not ok:
                self.fail("dependence", "decisions %d apart" % h, x, mu, bd)
        u = np.asarray(self.unit, float)
        if len(u):
            tests += 4
            if not np.all(np.isfinite(u)) or np.any(u < 0) or u.max() > LOG + np.log(len(u)):
                self.fail("weight", "largest weight over its mean", float(u.max()), 1.0, LOG)
            if not exp_sum(u.sum(), len(u)):
                self.fail("weight", "mean weight over expected", "%.4f (n=%d)" % (u.mean(), len(u)), 1.0, 0.0)
            for th in (0.1, np.log(2), 2.0):
                p = np.exp(-th)
                ok, mu, bd = bern((u > th).sum(), np.full(len(u), p))
                if not ok:
                    self.fail("weight", "weights above %.2f of their mean" % th, (u > th).sum(), mu, bd)
            # consecutive weights are independent
            if len(u) > 3:
                a, b = u[0:-1:2], u[1::2]
                t = np.log(2)
                nn = min(len(a), len(b))
                x = ((a[:nn] > t) & (b[:nn] > t)).sum()
                ok, mu, bd = bern(x, np.full(nn, 0.25))
                if not ok:
                    self.fail("weight", "consecutive large weights", x, mu, bd)
        g = np.asarray(self.geo)
        if len(g):
            for w in (1, 2, 4):
                tests += 1
                p = 1 - self.q**w
                ok, mu, bd = bern((g <= w).sum(), np.full(len(g), p))
                if not ok:
                    self.fail("weight", "discrete weights <= %d" % w, (g <= w).sum(), mu, bd)
        return tests
