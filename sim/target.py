"""One ensemble under test with everything that can be asked of it, for any
back end: used by the history, crash and concurrency properties."""
import numpy as np

from . import cond, fits, gen, queries, ref, samples, spark
from .core import Discard, Violation

MEM = ("dense", "sparse", "conditional")
ALL = ("dense", "sparse", "conditional", "spark")


class CondQuery:
    NAMES = [
        "expected_num_edges",
        "expected_degree",
        "expected_out_degree",
        "expected_in_degree",
        "expected_av_nn_property",
        "expected_av_nn_degree",
        "log_likelihood",
    ]

    def __init__(self, name, recompute=False, A=None):
        self.name, self.recompute, self.A = name, recompute, A
        self.a = {}

    def __repr__(self):
        return "%s(%s)" % (self.name, "recompute=True" if self.recompute else "")

    def ask(self, m):
        if self.name == "log_likelihood":
            return m.log_likelihood(self.A.copy())
        if self.recompute:
            return getattr(m, self.name)(recompute=True)
        return getattr(m, self.name)()

    def check(self, inst, got, param=None, where=""):
        n = self.name
        P = inst.P(param=param)
        if n == "log_likelihood":
            want = inst.loglik(self.A, param)
        else:
            want = {
                "expected_num_edges": lambda: P.sum(),
                "expected_degree": lambda: inst.undirected(param).sum(1),
                "expected_out_degree": lambda: P.sum(1),
                "expected_in_degree": lambda: P.sum(0),
            }[n]()
        if not ref.close(got, want, (1e3 if n == "log_likelihood" else 1) * inst.N**2):
            raise Violation(
                "wrong-" + n, "%s%r on %s: %s" % (where, self, inst.describe(), ref.show(got, want))
            )


class Target:
    def __init__(self, ctl, backend, inst, sc=None, fit=None):
        self.ctl, self.backend, self.inst, self.sc, self.fitcase = ctl, backend, inst, sc, fit
        self.p_blocks = gen.blocks(ctl, inst.N) if backend == "spark" else None

    def new(self, param=True):
        """A fresh library object (parameters set, fit target known)."""
        t = self.fitcase
        if self.backend == "conditional":
            return cond.build(self.inst, param, fits.as_given(t) if t else None)
        if t is not None:
            return fits.build(self.inst, t, self.backend, self.sc, self.p_blocks, param=param)
        return gen.build(self.inst, self.backend, self.sc, param=param, p_blocks=self.p_blocks)

    def names(self, like=True):
        if self.backend == "conditional":
            return CondQuery.NAMES if like else CondQuery.NAMES[:-1]
        g = ["expect", "nn"] + (["like"] if like else [])
        if self.backend == "spark" and like:
            g.append("confusion")
        return queries.names(self.inst, g)

    def query(self, name=None, recompute=True, like=True):
        ctl, inst = self.ctl, self.inst
        if name is None:
            name = ctl.pick(self.names(like))
        if self.backend == "conditional" and not name.startswith("expected_av_nn"):
            A = None
            if name == "log_likelihood":
                r = gen.rs(ctl)
                A = (r.rand(inst.N, inst.N) < inst.P()) & (inst.z() > 0)
                for a, b, i, j, zz in cond.macro_links(inst, _Loops(inst.selfloops)):
                    if not A[np.ix_(i, j)].any():
                        u, v = np.argwhere(zz > 0)[r.randint((zz > 0).sum())]
                        A[i[u], j[v]] = True
                A = A.astype(int)
            return CondQuery(name, recompute and ctl.choose(3) == 2, A)
        return queries.make(ctl, inst, name, recompute, backend=self.backend if self.backend != "spark" else "sparse")

    def opts(self, **k):
        if self.backend == "conditional":
            return cond.draw(self.ctl, self.inst)
        return samples.draw(self.ctl, self.inst, self.backend, **k)

    def sample_check(self, o, g, what):
        """Structural rules of one sample (current parameters = inst.param)."""
        if self.backend == "conditional":
            W = samples.dense(g.adjacency_matrix(directed=True, weighted=True))
            cond.structure(self.inst, o, g, W, what)
            return [W]
        W = samples.layers(self.inst, g)
        samples.structure(self.inst, o, g, W, what)
        return W


class _Loops:
    def __init__(self, loops):
        self.loops = loops


def make(ctl, backends=ALL, fit=False, big=0.3, N=None, extreme=True, kinds=None, faults=True, **over):
    backend = ctl.pick(list(backends))
    ctl.label("backend:" + backend)
    sc = None
    if backend == "conditional":
        inst = cond.instance(ctl, big=big if N is None else 0.0)
        f = fits.draw_cond(ctl, inst) if fit else None
    else:
        inst = gen.instance(
            ctl, kinds or gen.KINDS, N=N, big=big, extreme=extreme, dyads="single" if fit and backend == "sparse" else not fit
        )
        samples.balance(inst)
        f = None
        if fit:
            if inst.kind == "random" or fits.support(inst)[0] > 0:
                f = fits.draw(ctl, inst)
            else:
                raise Discard("no pair can be linked")
        if backend == "spark":
            sc = spark.cluster(ctl, faults=faults, **over)
    ctl.label("kind:" + inst.kind)
    return Target(ctl, backend, inst, sc, f)


def snapshot(m):
    """Public attributes of an object, copied deeply enough to compare."""
    out = {}
    for k, v in list(vars(m).items()):
        if k.startswith("_") or k in ("sc", "p_iter_rdd", "layers_rdd"):
            continue
        c = freeze(v)
        if c is not None:
            out[k] = c
    return out


def freeze(v):
    if isinstance(v, (bool, int, float, str, type(None), np.generic)):
        return ("v", repr(v))
    if isinstance(v, np.ndarray):
        if v.dtype.hasobject:
            return ("o", v.dtype.str, repr(v.tolist()))
        return ("a", str(v.dtype), v.shape, np.ascontiguousarray(v).tobytes())
    if hasattr(v, "tocsr") and hasattr(v, "nnz"):
        c = v.tocoo()
        a = np.asarray(c.toarray() if hasattr(c, "toarray") else c)
        return ("s", str(a.dtype), a.shape, a.tobytes())
    if isinstance(v, dict):
        return ("d", tuple((repr(k), freeze(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return ("l", tuple(freeze(x) for x in v))
    try:
        import pandas as pd

        if isinstance(v, (pd.DataFrame, pd.Series)):
            return frame(v)
    except ImportError:
        pass
    return None


def frame(df):
    """Everything observable of a data frame."""
    import pandas as pd

    if isinstance(df, pd.Series):
        df = df.to_frame()
    return (
        "f",
        tuple(map(str, df.columns)),
        tuple(str(t) for t in df.dtypes),
        tuple(map(repr, df.index.tolist())),
        repr([df.iloc[:, i].tolist() for i in range(df.shape[1])]),
        tuple(
            tuple(map(repr, df.iloc[:, i].cat.categories.tolist()))
            if str(df.dtypes.iloc[i]) == "category"
            else ()
            for i in range(df.shape[1])
        ),
    )


def same(before, m, what, ctl=None):
    """The attributes seen before still have their values."""
    after = snapshot(m)
    for k, v in before.items():
        if k not in after:
            raise Violation("state-changed", "%s: attribute %s disappeared" % (what, k))
        if after[k] != v:
            raise Violation("state-changed", "%s: attribute %s changed" % (what, k))
