"""Instance generation: ensembles, observed graphs, properties."""
import numpy as np

from .ref import Inst, pk_fitness, pk_invariant

KINDS = ["fitness", "invariant", "random", "multifitness", "multiinvariant"]
STYLES = ["uniform", "heavy", "ties", "zeros", "sparse", "ints", "onehot", "exact", "wide", "sorted"]


def rs(ctl):
    return np.random.RandomState(ctl.seed32())


def exact(inst, r):
    """Pair probabilities without rounding: 0, 1/2, 3/4, 7/8 per label."""
    inst.density = "exact"
    inst.x = np.array([1.0, 3.0, 7.0])[r.randint(3, size=inst.x.shape)]
    inst.y = np.array([1.0, 1.0, 0.0])[r.randint(3, size=inst.x.shape)]
    if r.rand() < 0.5:
        inst.x, inst.y = inst.y, inst.x
    inst.param = np.ones(inst.L if inst.multi else 1)
    inst.per_label = False if inst.multi else None


def odd_form(a, form):
    """A valid sparse array of the values of a, not in canonical form."""
    import scipy.sparse as sp

    a = np.asarray(a)
    if form == "zeros":  # every entry is stored
        i, j = np.indices(a.shape).reshape(2, -1)
        return sp.csr_array(sp.coo_array((a.ravel(), (i, j)), shape=a.shape))
    i, j = np.nonzero(a)
    if form == "duplicates":
        d = a[i, j]
        m = sp.coo_array(
            (np.concatenate([0.25 * d, 0.75 * d]), (np.concatenate([i, i]), np.concatenate([j, j]))), shape=a.shape
        )
        return m
    o = np.lexsort((-j, i))
    ptr = np.zeros(a.shape[0] + 1, np.int32)
    np.cumsum(np.bincount(i, minlength=a.shape[0]), out=ptr[1:])
    return sp.csr_array((a[i, j][o], j[o].astype(np.int32), ptr), shape=a.shape)


def fitness(r, n, style):
    if style == "uniform":
        v = r.rand(n) + 0.05
    elif style == "heavy":
        v = np.exp(2.0 * r.randn(n))
    elif style == "wide":  # many orders of magnitude
        v = 10.0 ** r.uniform(-6, 6, n)
    elif style == "ties":
        v = np.array([0.5, 1.0, 2.0])[r.randint(3, size=n)]
    elif style == "zeros":
        v = r.rand(n) * (r.rand(n) < 0.7)
    elif style == "sparse":
        v = (r.rand(n) + 0.2) * (r.rand(n) < 0.3)
    elif style == "ints":
        v = r.randint(0, 5, size=n).astype(float)
    elif style == "onehot":
        v = np.zeros(n)
        v[r.randint(n)] = 1.0 + r.rand()
    else:
        v = np.sort(r.rand(n) + 0.01)[::-1].copy()
    return v


def scale_to(f, layers, target):
    """d with mean probability ~ target (bisection in log d)."""
    if target == "max":
        return np.inf
    lo, hi = -30.0, 30.0
    top = np.mean([f(np.inf, a, b).mean() for a, b in layers])
    target = min(target, 0.9 * top)
    for _ in range(60):
        mid = 0.5 * (lo + hi)
        m = np.mean([f(np.exp(mid), a, b).mean() for a, b in layers])
        if m < target:
            lo = mid
        else:
            hi = mid
    return float(np.exp(0.5 * (lo + hi)))


def size(ctl, big=1.0):
    c = ctl.choose(16)
    if c < 6:
        return 2 + ctl.choose(8)
    if c < 12:
        return 10 + ctl.choose(21)
    if c < 15:
        return 20 + ctl.choose(int(26 * big) + 1)
    if big >= 0.4 and ctl.choose(8) == 7:  # where counts leave a byte
        return [100 + ctl.choose(41), 255 + ctl.choose(3)][ctl.choose(4) == 3]
    return 40 + ctl.choose(int(50 * big) + 1)


def few(ctl, n, many=20):
    """Mostly 2..n+1 vertices, sometimes enough for several blocks."""
    if ctl.choose(24) == 23:
        return many + ctl.choose(many + 6)
    return 2 + ctl.choose(n)


def instance(ctl, *a, dyads=True, **k):
    inst = _instance(ctl, *a, **k)
    if dyads and inst.kind != "random" and inst.density != "exact" and ctl.choose(8) == 7:
        inst.dyad = not ctl.jit and not (dyads == "single" and inst.multi)
    if inst.kind != "random" and inst.density != "exact" and ctl.choose(8) == 7:
        d = np.asarray(inst.param, float)
        if np.all(np.isfinite(d)):  # the same ensemble with unit parameters
            inst.x = inst.x * (d if inst.multi else float(d[0]))
            inst.param = np.ones_like(d)
    return inst


def _instance(ctl, kinds=KINDS, N=None, selfloops=None, big=1.0, positive=False, extreme=True):
    kind = ctl.pick(kinds)
    if N is None:
        N = size(ctl, big)
    r = rs(ctl)
    inst = Inst(kind=kind, N=N)
    inst.selfloops = bool(ctl.choose(2)) if selfloops is None else selfloops
    dens = [0.3, 0.1, 0.5, 0.02, 0.8, 0.97, 0.3, 0.3, 0.1, 0.5, 0.002, "max"][ctl.choose(12)]
    if dens == "max" and not extreme:
        dens = 0.9
    inst.density = dens
    inst.L = None
    inst.per_label = None
    if kind == "random":
        inst.style = "-"
        inst.x = inst.y = None
        if dens == "max":
            p = [1.0, 0.0][ctl.choose(2)]
        else:
            p = dens * (0.9 + 0.2 * r.rand()) if dens < 0.9 else dens
        if ctl.choose(8) == 7:
            # exact probabilities; one expected neighbour
            p = [0.5, 0.25, 1.0 / max(1, N - 1), 1.0 / N][ctl.choose(4)]
        inst.param = np.array([p, [0.5, 0.25, 0.8][ctl.choose(3)]])
        inst.discrete = bool(ctl.choose(2))
        return inst
    styles = STYLES[:3] + STYLES[-1:] if positive else STYLES
    style = ctl.pick(styles)
    if style == "exact" and not kind.endswith("fitness"):
        style = "ints"
    inst.style = style
    f = pk_fitness if kind.endswith("fitness") else pk_invariant
    if not inst.multi:
        inst.x = fitness(r, N, style)
        inst.y = fitness(r, N, style)
        if style == "ties" and ctl.choose(2):
            inst.y = inst.x.copy()
        if style == "exact":
            exact(inst, r)
            return inst
        d = scale_to(f, [(inst.x, inst.y)], dens)
        inst.param = np.array([d])
        return inst
    L = 1 + ctl.choose(4)
    if N <= 8 and ctl.choose(64) == 63:
        L = 254 + ctl.choose(4)
    inst.L = L
    inst.x = np.stack([fitness(r, N, style) for _ in range(L)], axis=1)
    inst.y = np.stack([fitness(r, N, style) for _ in range(L)], axis=1)
    if style in ("zeros", "sparse") and L > 1 and ctl.choose(4) == 0:
        inst.x[:, ctl.choose(L)] = 0.0  # a label nobody uses
    if style in ("zeros", "sparse") and ctl.choose(4) == 0:
        i = ctl.choose(N)
        inst.x[i, :] = 0.0
        inst.y[i, :] = 0.0
    inst.form = [
        None, None, None, "csr_array", "csr_matrix", "csc_array", "coo_array", "unsorted", "duplicates", "zeros",
    ][ctl.choose(10)]
    if inst.form == "csr_matrix" and not ctl.jit:
        # numpy.matrix behaves as an array only in compiled kernels
        inst.form = "csr_array"
    inst.per_label = bool(ctl.choose(2))
    if style == "exact":
        exact(inst, r)
        return inst
    lay = [(inst.x[:, k], inst.y[:, k]) for k in range(L)]
    if inst.per_label:
        inst.param = np.array([scale_to(f, [a], dens) * (0.5 + r.rand()) for a in lay])
        if L == 1:
            inst.per_label = False
    else:
        inst.param = np.array([scale_to(f, lay, dens)] * L)
    return inst


def adjacency(ctl, inst, selfloops=None, r=None):
    """A binary graph from the ensemble's support (2D; list if multi)."""
    r = r or rs(ctl)
    m = inst.mask(selfloops)
    how = ctl.choose(4)
    out = []
    for P in inst.PK(selfloops):
        if how == 3:
            A = (r.rand(inst.N, inst.N) < 0.3) & (P > 0)
        else:
            A = r.rand(inst.N, inst.N) < P
        out.append((A & (m > 0)).astype(int))
    return out


def dyadic(cls):
    """The ensemble a user defines by giving each ordered pair a property
    (prop_dyad) that scales the parameter. Interpreted kernels only."""

    def scaled(f):
        return lambda d, *a: f(d * a[-1], *a)

    body = {"prop_dyad": staticmethod(lambda i, j: (2.0 + (3 * int(i) + 5 * int(j)) % 7) / 4.0)}
    if ".sparse" not in cls.__module__ or cls.__name__.startswith("Multi"):  # else the model does so itself
        for n in ("p_ij", "logp", "log1mp", "p_ijk", "logp_ijk", "log1mp_ijk"):
            if hasattr(cls, n):
                body[n] = staticmethod(scaled(getattr(cls, n)))
    return type(cls.__name__, (cls,), body)


# -- builders ------------------------------------------------------------
def build(inst, backend, sc=None, param=True, targets=None, p_blocks=None, **extra):
    """Construct the library object. targets: num_edges or num_edges_label."""
    if backend == "dense":
        import graph_ensembles as m
    elif backend == "sparse":
        import graph_ensembles.sparse as m
    else:
        import graph_ensembles.spark as m
    cls = {
        "random": "RandomDiGraph",
        "fitness": "FitnessModel",
        "invariant": "ScaleInvariantModel",
        "multifitness": "MultiFitnessModel",
        "multiinvariant": "MultiInvariantModel",
    }[inst.kind]
    cls = getattr(m, cls)
    if inst.dyad:
        cls = dyadic(cls)
    kw = {"num_vertices": inst.N, "selfloops": inst.selfloops}
    if not inst.selfloops and inst.N % 2:
        kw.pop("selfloops")  # the default
    if inst.kind != "random":
        kw["prop_out"] = inst.x.copy()
        kw["prop_in"] = inst.y.copy()
    else:
        kw["discrete_weights"] = inst.discrete
    if inst.multi:
        kw["num_labels"] = inst.L
        form = getattr(inst, "form", None)
        if form:
            import scipy.sparse as sp

            for k in ("prop_out", "prop_in"):
                kw[k] = getattr(sp, form)(kw[k]) if hasattr(sp, form) else odd_form(kw[k], form)
    if param:
        kw["param"] = inst.param.copy()
        if inst.multi and not inst.per_label:
            kw["param"] = inst.param[:1].copy()
        if inst.kind != "random" and len(kw["param"]) == 1 and inst.N % 3 == 0:
            kw["param"] = float(kw["param"][0])
        elif inst.multi and inst.N % 3 == 1:
            kw["param"] = [float(p) for p in kw["param"]]
    if targets:
        kw.update(targets)
    kw.update(extra)
    if backend == "spark":
        if p_blocks is not None:
            kw["p_blocks"] = p_blocks
        return cls(sc, **kw)
    return cls(**kw)


def blocks(ctl, N):
    """p_blocks as a user may pass it (the library clamps large values)."""
    return [None, 1, 2, 3, 4, 5, 7, 10, N, 12][ctl.choose(10)]
