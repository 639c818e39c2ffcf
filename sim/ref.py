"""Reference model: the pair probabilities and plain sums over them.

Nothing here is shared with the library: probabilities are numpy matrices and
every expectation is the definition written as one vector expression.
"""
import numpy as np

ATOL = 1e-10
RTOL = 1e-8


def pk_fitness(d, x, y, w=1.0):
    z = w * np.multiply.outer(np.asarray(x, float), np.asarray(y, float))
    if np.isinf(d):
        return (z > 0).astype(float)
    z = d * z
    return z / (1.0 + z)


def pk_invariant(d, x, y, w=1.0):
    z = w * np.multiply.outer(np.asarray(x, float), np.asarray(y, float))
    if np.isinf(d):
        return (z > 0).astype(float)
    return -np.expm1(-d * z)


def logs_fitness(d, x, y, w=1.0):
    """(log p, log(1-p)) in closed form."""
    with np.errstate(divide="ignore", invalid="ignore"):
        z = w * np.multiply.outer(np.asarray(x, float), np.asarray(y, float))
        z = np.where(z > 0, d * z, 0.0)
        lp = np.where(np.isinf(z), 0.0, np.log(z) - np.log1p(z))
        return lp, -np.log1p(z)


def logs_invariant(d, x, y, w=1.0):
    with np.errstate(divide="ignore", invalid="ignore"):
        z = w * np.multiply.outer(np.asarray(x, float), np.asarray(y, float))
        z = np.where(z > 0, d * z, 0.0)
        return np.log(-np.expm1(-z)), -z


class Inst:
    """One ensemble: everything needed to build it and to know its answers."""

    kind = None  # random fitness invariant multifitness multiinvariant conditional

    def __init__(self, **k):
        self.__dict__.update(k)

    @property
    def multi(self):
        return self.kind.startswith("multi")

    def describe(self):
        d = {"kind": self.kind, "N": self.N, "selfloops": bool(self.selfloops)}
        for k in ("L", "p_blocks", "style", "per_label", "density", "M", "dyad"):
            if getattr(self, k, None) is not None:
                d[k] = getattr(self, k)
        if getattr(self, "param", None) is not None:
            d["param"] = [float(v) for v in np.ravel(self.param)[:4]]
        return d

    dyad = False  # the parameter is scaled by a property of each ordered pair

    def w(self):
        if not self.dyad:
            return 1.0
        i, j = np.indices((self.N, self.N))
        return (2.0 + (3 * i + 5 * j) % 7) / 4.0

    def layers(self, param=None):
        """Full probability matrix per label (diagonal included)."""
        param = self.param if param is None else param
        if self.kind == "random":
            return [np.full((self.N, self.N), float(np.ravel(param)[0]))]
        f = pk_fitness if self.kind.endswith("fitness") else pk_invariant
        if not self.multi:
            return [f(float(np.ravel(param)[0]), self.x, self.y, self.w())]
        par = np.ravel(param)
        if len(par) == 1:
            par = np.repeat(par, self.L)
        w = self.w()
        return [f(float(par[k]), self.x[:, k], self.y[:, k], w) for k in range(self.L)]

    def logs(self, param=None):
        """Per label (log p, log(1-p)) matrices, diagonal included."""
        param = self.param if param is None else param
        if self.kind == "random":
            p = float(np.ravel(param)[0])
            with np.errstate(divide="ignore"):
                o = np.ones((self.N, self.N))
                return [(o * np.log(p), o * np.log1p(-p))]
        f = logs_fitness if self.kind.endswith("fitness") else logs_invariant
        if not self.multi:
            return [f(float(np.ravel(param)[0]), self.x, self.y, self.w())]
        par = np.ravel(param)
        if len(par) == 1:
            par = np.repeat(par, self.L)
        w = self.w()
        return [f(float(par[k]), self.x[:, k], self.y[:, k], w) for k in range(self.L)]

    def logs_any(self, param=None):
        """(log p, log(1-p)) of a link in at least one label."""
        ls = self.logs(param)
        if len(ls) == 1:
            return ls[0]
        lq = sum(b for _, b in ls)
        with np.errstate(divide="ignore"):
            return np.log(-np.expm1(lq)), lq

    def neigh(self, ndir, selfloops=None, param=None):
        return neigh(self.P(selfloops, param), ndir)

    def mask(self, selfloops=None):
        s = self.selfloops if selfloops is None else selfloops
        m = np.ones((self.N, self.N))
        if not s:
            np.fill_diagonal(m, 0.0)
        return m

    def P(self, selfloops=None, param=None):
        ls = self.layers(param)
        if len(ls) == 1:
            return ls[0] * self.mask(selfloops)
        u = np.zeros((self.N, self.N))
        for a in ls:  # keeps probabilities far below one
            u = np.where(a == 1.0, 1.0, u + a * (1.0 - u))
        return u * self.mask(selfloops)

    def PK(self, selfloops=None, param=None):
        m = self.mask(selfloops)
        return [a * m for a in self.layers(param)]


def und(P):
    """Probability of a link in either direction; a self loop counts once."""
    U = P + P.T - P * P.T
    np.fill_diagonal(U, np.diag(P))
    return U


def degree(P):
    return und(P).sum(axis=1)


def out_degree(P):
    return P.sum(axis=1)


def in_degree(P):
    return P.sum(axis=0)


def neigh(P, ndir):
    if ndir == "out":
        return P
    if ndir == "in":
        return P.T
    return und(P)


def loglik(logs, A, mask):
    """log probability of the binary adjacency A over the pairs in mask."""
    t = np.where(A != 0, logs[0], logs[1])
    return float(np.sum(t[mask > 0]))


def to_array(v):
    if hasattr(v, "toarray"):
        v = v.toarray()
    return np.asarray(v, dtype=float)


def close(got, want, scale=1.0):
    got = to_array(got)
    want = np.asarray(want, dtype=float)
    if got.shape != want.shape:
        try:
            if got.size == want.size and got.ravel().shape == want.ravel().shape:
                got = got.reshape(want.shape)
            else:
                return False
        except Exception:
            return False
    same = got == want  # covers infinities
    with np.errstate(invalid="ignore"):
        ok = np.abs(got - want) <= ATOL * scale + RTOL * np.abs(want)
    return bool(np.all(same | ok))


def show(got, want):
    try:
        g = to_array(got)
        w = np.asarray(want, float)
        if g.shape != w.shape:
            return "shape %s instead of %s" % (g.shape, w.shape)
        if g.size == 1:
            return "%r instead of %r" % (float(g.ravel()[0]), float(w.ravel()[0]))
        with np.errstate(invalid="ignore"):
            d = np.abs(g - w)
        d = np.where(np.isnan(d), np.inf, d)
        k = np.unravel_index(int(np.argmax(d)), d.shape)
        return "%r instead of %r at %s (%d elements differ)" % (
            float(g[k]),
            float(w[k]),
            tuple(int(t) for t in k),
            int(np.sum(d > ATOL + RTOL * np.abs(w))),
        )
    except Exception as e:  # only formatting
        return "incomparable (%s)" % type(e).__name__
