"""Conditional ensembles: micro graphs given an observed macro graph."""
import numpy as np
import scipy.sparse as sp

from . import gen, ref
from .ref import Inst


class Cond(Inst):
    kind = "conditional"
    multi = False
    L = None

    def micro(self, param=None, selfloops=None):
        d = float(np.ravel(self.param if param is None else param)[0])
        return ref.pk_invariant(d, self.x, self.y) * self.mask(selfloops)

    def z(self, selfloops=None):
        return np.multiply.outer(self.x, self.y) * self.mask(selfloops)

    def ind(self):
        return (self.groups[:, None] == np.arange(self.M)[None, :]).astype(float)

    def zmacro(self, selfloops=None):
        G = self.ind()
        return G.T.dot(self.z(selfloops)).dot(G)

    def pmacro(self, param=None, selfloops=None):
        """Unconditional probability of each macro link."""
        d = float(np.ravel(self.param if param is None else param)[0])
        Z = self.zmacro(selfloops)
        return np.where(Z > 0, -np.expm1(-d * np.where(Z > 0, Z, 1.0)), 0.0)

    def _given(self, zz, ZZ, d):
        with np.errstate(divide="ignore", invalid="ignore"):
            if d == 0:
                r = zz / ZZ
            else:
                r = -np.expm1(-d * zz) / -np.expm1(-d * ZZ)
        return np.where(zz > 0, r, 0.0)

    def expand(self, M):
        return M[np.ix_(self.groups, self.groups)]

    def P(self, selfloops=None, param=None):
        d = float(np.ravel(self.param if param is None else param)[0])
        r = self._given(self.z(selfloops), self.expand(self.zmacro(selfloops)), d)
        return r * (self.expand(self.macro) != 0)

    def PK(self, selfloops=None, param=None):
        return [self.P(selfloops, param)]

    def layers(self, param=None):
        return [self.P(True, param)]

    def neigh(self, ndir, selfloops=None, param=None):
        if ndir == "out-in":
            return self.undirected(param, selfloops)
        P = self.P(selfloops, param)
        return P if ndir == "out" else P.T

    def undirected(self, param=None, selfloops=None):
        """P(i->j or j->i), exact: both directions of a pair inside one group
        are conditioned on the same macro link."""
        d = float(np.ravel(self.param if param is None else param)[0])
        P = self.P(selfloops, param)
        U = P + P.T - P * P.T
        z = self.z(selfloops)
        same = self.groups[:, None] == self.groups[None, :]
        joint = self._given(z + z.T, self.expand(self.zmacro(selfloops)), d)
        joint = joint * (self.expand(self.macro) != 0)
        U = np.where(same, joint, U)
        np.fill_diagonal(U, np.diag(P))
        return U

    def loglik(self, A, param=None):
        d = float(np.ravel(self.param if param is None else param)[0])
        G = self.ind()
        agg = G.T.dot((A != 0).astype(float)).dot(G) > 0
        if np.any(agg != (self.macro != 0)):
            return -np.inf
        z, Z = self.z(), self.zmacro()
        if d == 0:  # one link for each macro link
            if (A != 0).sum() != (self.macro != 0).sum():
                return -np.inf
            with np.errstate(divide="ignore", invalid="ignore"):
                return float(np.log(z / self.expand(Z))[A != 0].sum())
        with np.errstate(divide="ignore"):
            t = np.where(A != 0, np.log(-np.expm1(-d * z)), -d * z)[self.mask() > 0].sum()
            u = np.where(self.macro != 0, np.log(-np.expm1(-d * Z)), -d * Z)
        return float(t - u.sum())

    def describe(self):
        return {
            "kind": self.kind,
            "N": self.N,
            "groups": int(self.M),
            "macro_links": int((self.macro != 0).sum()),
            "selfloops": bool(self.selfloops),
            "style": self.style,
            "param": [float(self.param[0])],
        }


def instance(ctl, big=1.0, N=None):
    many = None
    if N is None:
        if big > 0.1 and ctl.choose(60) == 59:
            N = 60 + ctl.choose(50)
            if ctl.choose(4) == 3:
                many = 250 + ctl.choose(10)
                N = many + ctl.choose(8)
        else:
            N = 2 + ctl.choose(10) if ctl.choose(2) else 6 + ctl.choose(int(30 * big) + 1)
    r = gen.rs(ctl)
    inst = Cond(N=N)
    inst.selfloops = bool(ctl.choose(2))
    inst.style = ctl.pick(["uniform", "heavy", "ties", "zeros", "ints", "sorted"])
    M = many or 1 + ctl.choose(min(N, 8))
    inst.M = M
    g = np.concatenate([np.arange(M), r.randint(M, size=N - M)])
    if ctl.choose(2):
        r.shuffle(g)
    else:
        g = np.sort(g)
    inst.groups = g.astype([np.int64, np.int32, np.uint8 if M < 256 else np.uint16, np.int16][ctl.choose(4)])
    inst.x = gen.fitness(r, N, inst.style)
    inst.y = gen.fitness(r, N, inst.style)
    # every group has some fitness: an empty one has no macro probability
    for k in range(M):
        i = np.where(inst.groups == k)[0]
        if inst.x[i].sum() == 0:
            inst.x[i[0]] = 1.0
        if inst.y[i].sum() == 0:
            inst.y[i[-1]] = 1.0
    inst.y *= inst.x.sum() / inst.y.sum()
    dens = [0.3, 0.1, 0.5, 0.02, 0.8, 0.97][ctl.choose(6)]
    d = gen.scale_to(ref.pk_invariant, [(inst.x, inst.y)], dens)
    if ctl.choose(10) == 9:  # towards exactly one link for each macro link
        z = inst.z(True)
        d = [0.0, 1e-6, 1e-13, 1e-17, 1e-60][ctl.choose(5)] / z[z > 0].mean()
    inst.param = np.array([d])
    Z = inst.zmacro(False if not inst.selfloops else True)
    can = Z > 0
    # a macro link must be attainable with and without self loops
    can &= inst.zmacro(False) > 1e-9 * (np.multiply.outer(inst.ind().T.dot(inst.x), inst.ind().T.dot(inst.y)))
    how = ctl.choose(4)
    if how == 0:
        A = can
    elif how == 1:
        A = can & (r.rand(M, M) < 0.5)
    elif how == 2:
        A = can & (r.rand(M, M) < inst.pmacro())
    else:
        A = can & (r.rand(M, M) < 0.2)
    W = np.where(A, [np.ones((M, M)), 1 + r.randint(0, 50, (M, M)), 0.1 + 10 * r.rand(M, M)][ctl.choose(3)], 0.0)
    inst.macro = W
    inst.adj_form = ctl.pick(
        ["dense", "csr_array", "csc_array", "coo_array", "csr_matrix", "unsorted", "repeated", "zeros"]
    )
    return inst


def as_form(W, form):
    """The same matrix, in another form."""
    if form == "dense":
        return W.copy()
    if form in ("unsorted", "repeated", "zeros"):
        c = sp.csr_array(W)
        i, j, v = c.tocoo().row, c.indices.copy(), c.data.copy()
        if form == "repeated":  # each weight in two halves
            i, j, v = np.repeat(i, 2), np.repeat(j, 2), np.repeat(v, 2) / 2
        elif form == "zeros":
            r, q = np.nonzero(W == 0)
            r, q = r[::2], q[::2]
            i, j, v = np.concatenate([i, r]), np.concatenate([j, q]), np.concatenate([v, 0.0 * r])
        k = np.lexsort((-j, i))
        p = np.concatenate([[0], np.cumsum(np.bincount(i, minlength=len(W)))]).astype(c.indptr.dtype)
        return sp.csr_array((v[k], j[k].astype(c.indices.dtype), p), shape=W.shape)
    return getattr(sp, form)(W)


def build(inst, param=True, targets=None):
    import graph_ensembles.sparse as m

    kw = dict(
        num_vertices=inst.N,
        prop_out=inst.x.copy(),
        prop_in=inst.y.copy(),
        groups=inst.groups.copy(),
        adj=as_form(inst.macro, inst.adj_form),
        selfloops=inst.selfloops,
    )
    if not inst.selfloops and inst.N % 2:
        kw.pop("selfloops")  # the default
    if param:
        kw["param"] = inst.param.copy()
    if targets:
        kw.update(targets)
    return m.ConditionalInvariantModel(**kw)


# -- samples ---------------------------------------------------------------
class Opts:
    pass


def draw(ctl, inst):
    from . import samples

    o = Opts()
    o.backend = "conditional"
    o.selfloops = ctl.pick(["default", None, False, True])
    o.loops = inst.selfloops if o.selfloops in ("default", None) else o.selfloops
    o.mode = ctl.pick([None, "wagg", "cremb", "wagg-given", "cremb-given"])
    o.weights = o.mode.split("-")[0] if o.mode else None
    o.given = bool(o.mode and o.mode.endswith("given"))
    o.s_out, o.s_in = inst.x, inst.y
    o.sparse_arg = False
    if o.given:
        o.s_out, o.s_in = samples.strengths(ctl, inst)
    o.ref = samples.ref_graph(ctl, inst, "sparse") if ctl.choose(3) == 2 else None
    return o


def macro_links(inst, o):
    """(a, b, indices of the possible pairs) of each macro link."""
    z = inst.z(o.loops)
    for a, b in np.argwhere(inst.macro != 0):
        i = np.where(inst.groups == a)[0]
        j = np.where(inst.groups == b)[0]
        yield int(a), int(b), i, j, z[np.ix_(i, j)]


def structure(inst, o, g, W, what):
    """What holds of every sample, whatever the stream."""
    from .core import Violation

    A = W != 0
    G = inst.ind()
    got = G.T.dot(A.astype(float)).dot(G) > 0
    want = inst.macro != 0
    if not np.array_equal(got, want):
        a, b = np.argwhere(got != want)[0]
        raise Violation(
            "macro-link", "%s: groups %d to %d %s" % (what, a, b, "linked" if got[a, b] else "not linked")
        )
    if not o.loops and np.any(np.diag(A)):
        raise Violation("sample-self-loop", "%s: vertex %d" % (what, int(np.argmax(np.diag(A)))))
    bad = A & (inst.z(o.loops) == 0)
    if bad.any():
        raise Violation("sample-impossible-link", "%s: pair %s" % (what, np.argwhere(bad)[0].tolist()))
    v = W[A].astype(float)
    if o.weights is None:
        if np.any(v != 1):
            raise Violation("sample-multiplicity", "%s: values %s" % (what, sorted(set(v.tolist()))[:4]))
    elif not np.all(np.isfinite(v)) or np.any(v < 0):
        raise Violation("sample-weight", "%s: weight %r" % (what, v[~(v >= 0)][:1]))
    if o.weights == "wagg":
        S = np.multiply.outer(o.s_out, o.s_in) * A
        agg = inst.expand(G.T.dot(S).dot(G))
        want = np.where(A, S * inst.expand(inst.macro) / np.where(agg > 0, agg, 1.0), 0.0)
        if not np.allclose(W, want, rtol=1e-9, atol=0):
            d = np.argwhere(~np.isclose(W, want, rtol=1e-9, atol=0))[0]
            raise Violation(
                "sample-weight",
                "%s: pair %s weighs %r instead of %r" % (what, d.tolist(), W[tuple(d)], want[tuple(d)]),
            )


def judge(ctl, inst, o, seen, units, what):
    """Frequencies over samples; each test has false alarm below stats.EPS."""
    from . import stats
    from .core import Violation

    k = len(seen)
    C = np.sum(seen, axis=0)
    P = inst.P(o.loops)
    M = inst.pmacro(selfloops=o.loops)
    d = float(inst.param[0])
    tests = 0

    def bad(kind, name, x, mu, bd):
        raise Violation(
            "sample-" + kind,
            "%s: %s over %d samples: observed %s, expected %.2f, possible deviation %.2f"
            % (what, name, k, x, mu, bd),
        )

    V = k * P * (1 - P)
    bd = np.where(P > 0, np.sqrt(2 * V * stats.LOG) + (2.0 / 3.0) * stats.LOG, 0.0)
    off = np.abs(C - k * P) > bd + 1e-6 * (1 + k * P)
    tests += int((P > 0).sum())
    if off.any():
        i, j = np.argwhere(off)[0]
        bad("frequency", "pair (%d, %d)" % (i, j), C[i, j], k * P[i, j], bd[i, j])
    # numbers of links per macro link, and in total: independent across macro
    # links and samples, bounded, with exact variance
    tot = mu_t = v_t = 0.0
    R = 1
    for a, b, i, j, z in macro_links(inst, o):
        p = -np.expm1(-d * z) if d > 0 else None
        if p is None:
            continue
        m1, m2 = p.sum(), (p * (1 - p)).sum() + p.sum() ** 2
        e, e2 = m1 / M[a, b], m2 / M[a, b]
        v = max(e2 - e * e, 0.0)
        n = int((z > 0).sum())
        x = C[np.ix_(i, j)].sum()
        b1 = np.sqrt(2 * k * v * stats.LOG) + (2.0 / 3.0) * n * stats.LOG
        tests += 1
        if abs(x - k * e) > b1 + 1e-6 * (1 + k * e):
            bad("frequency", "links from group %d to %d" % (a, b), x, k * e, b1)
        tot, mu_t, v_t, R = tot + x, mu_t + k * e, v_t + k * v, max(R, n)
        # two links of the same macro link
        idx = np.argwhere(z > 0)
        if len(idx) > 1:
            for _ in range(3):
                u = ctl.choose(len(idx))
                w = (u + 1 + ctl.choose(len(idx) - 1)) % len(idx)
                (r1, c1), (r2, c2) = idx[u], idx[w]
                q = p[r1, c1] * p[r2, c2] / M[a, b]
                x = sum(int(s[i[r1], j[c1]] and s[i[r2], j[c2]]) for s in seen)
                ok, mu, b2 = stats.bern(x, np.full(k, min(q, 1.0)))
                tests += 1
                if not ok:
                    bad("dependence", "pairs (%d, %d) and (%d, %d)" % (i[r1], j[c1], i[r2], j[c2]), x, mu, b2)
    if mu_t:
        b3 = np.sqrt(2 * v_t * stats.LOG) + (2.0 / 3.0) * R * stats.LOG
        tests += 1
        if abs(tot - mu_t) > b3 + 1e-6 * (1 + mu_t):
            bad("frequency", "all links", tot, mu_t, b3)
    if units:
        u = np.asarray(units, float)
        tests += 1
        if not stats.exp_sum(u.sum(), len(u)):
            bad("weight", "weights over their mean", u.sum(), len(u), np.nan)
    return tests


def law(inst, o):
    """The free decisions of a sample, their probabilities and joint ones."""
    P = inst.P(o.loops)
    d = float(inst.param[0])
    M = inst.pmacro(selfloops=o.loops)
    free = np.argwhere((P > 0) & (P < 1))
    p1 = P[free[:, 0], free[:, 1]]
    g = inst.groups.astype(int)
    mac = np.array([(g[i], g[j]) for i, j in free], int).reshape(-1, 2)
    micro = inst.micro(selfloops=o.loops)
    q = micro[free[:, 0], free[:, 1]]
    same = np.all(mac[:, None, :] == mac[None, :, :], axis=2)
    with np.errstate(divide="ignore", invalid="ignore"):
        joint = np.multiply.outer(q, q) / M[mac[:, 0], mac[:, 1]][:, None] if d > 0 else 0.0
    p2 = np.where(same, joint, np.multiply.outer(p1, p1))
    return free, p1, p2
