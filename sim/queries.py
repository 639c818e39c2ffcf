"""The read-only queries of an ensemble, their reference values, and the
comparison.  Used through the public API only."""
import numpy as np
import scipy.sparse as sp

from . import gen, ref
from .core import Violation

DIRS = ["out", "in", "out-in"]


def as_graph(backend, A, w=None):
    """The adjacency as the backend's own graph object (weighted if w)."""
    import pandas as pd

    if backend == "dense":
        import graph_ensembles as m
    else:
        import graph_ensembles.sparse as m
    multi = isinstance(A, list)
    layers = A if multi else [A]
    n = layers[0].shape[0]
    v = pd.DataFrame({"id": ["v%04d" % i for i in range(n)]})
    rows = []
    for k, L in enumerate(layers):
        for i, j in zip(*np.nonzero(L)):
            rows.append(("v%04d" % i, "v%04d" % j, "l%03d" % k, 1.0 if w is None else float(w[i, j])))
    e = pd.DataFrame(rows, columns=["src", "dst", "label", "weight"])
    e["weight"] = e["weight"].astype(float)
    if multi:
        return m.MultiDiGraph(
            v, e, v_id="id", src="src", dst="dst", edge_label="label", weight="weight"
        )
    return m.DiGraph(v, e, v_id="id", src="src", dst="dst", weight="weight")


class Query:
    def __init__(self, name, **a):
        self.name = name
        self.a = a

    def __repr__(self):
        a = {k: v for k, v in self.a.items() if not isinstance(v, (np.ndarray, list)) and k != "backend"}
        return "%s(%s)" % (self.name, ", ".join("%s=%r" % kv for kv in sorted(a.items())))

    # -- ask the library -------------------------------------------------
    def ask(self, m):
        a = self.a
        n = self.name
        if n in SIMPLE:
            if a.get("recompute"):
                return getattr(m, n)(recompute=True)
            return getattr(m, n)()
        if n == "expected_av_nn_property":
            k = dict(ndir=a["ndir"])
            if a["selfloops"] != "default":
                k["selfloops"] = a["selfloops"]
            if a.get("recompute"):
                k["deg_recompute"] = True
            return m.expected_av_nn_property(a["prop"].copy(), **k)
        if n == "expected_av_nn_degree":
            k = dict(ddir=a["ddir"], ndir=a["ndir"])
            if a["selfloops"] != "default":
                k["selfloops"] = a["selfloops"]
            if a.get("recompute"):
                k["recompute"] = True
            if a.get("deg_recompute"):
                k["deg_recompute"] = True
            return m.expected_av_nn_degree(**k)
        if n == "log_likelihood":
            k = {}
            if a["selfloops"] != "default":
                k["selfloops"] = a["selfloops"]
            return m.log_likelihood(self.graph_arg(), **k)
        if n == "confusion_matrix":
            k = {}
            if a["selfloops"] != "default":
                k["selfloops"] = a["selfloops"]
            return m.confusion_matrix(
                self.graph_arg(), thresholds=a["thresholds"].copy(), **k
            )
        raise KeyError(n)

    def graph_arg(self):
        A, form = self.a["adj"], self.a["form"]
        w = self.a.get("wts")
        if isinstance(A, list):
            if form == "graph" and all(x.any() for x in A):
                return as_graph(self.a["backend"], A, w)
            B = [x * w for x in A]
            if form == "list":
                return [sp.csr_matrix(x) for x in B]
            if form in ("zeros", "unsorted"):
                return [gen.odd_form(x, form) for x in B]
            return np.stack(B)
        if form == "graph" and A.any():
            return as_graph(self.a["backend"], A, w)
        B = A * w
        if form in ("dense", "list", "graph"):
            return B
        return gen.odd_form(B, form) if form in ("zeros", "unsorted") else getattr(sp, form)(B)

    # -- the reference ----------------------------------------------------
    def loops(self, inst):
        s = self.a.get("selfloops", "default")
        if s == "default":
            return False if self.name.startswith("expected_av") else inst.selfloops
        return inst.selfloops if s is None else s

    def want(self, inst, param=None):
        n, a = self.name, self.a
        if n == "expected_num_edges":
            return inst.P(param=param).sum()
        if n == "expected_degree":
            return ref.degree(inst.P(param=param))
        if n == "expected_out_degree":
            return ref.out_degree(inst.P(param=param))
        if n == "expected_in_degree":
            return ref.in_degree(inst.P(param=param))
        if n == "expected_num_edges_label":
            return np.array([p.sum() for p in inst.PK(param=param)])
        if n == "expected_degree_by_label":
            return np.stack([ref.degree(p) for p in inst.PK(param=param)], axis=1)
        if n == "expected_out_degree_by_label":
            return np.stack([ref.out_degree(p) for p in inst.PK(param=param)], axis=1)
        if n == "expected_in_degree_by_label":
            return np.stack([ref.in_degree(p) for p in inst.PK(param=param)], axis=1)
        if n == "expected_total_weight":
            par = inst.param if param is None else param
            e = inst.P(param=param).sum()
            return e / (1 - par[1]) if inst.discrete else e / par[1]
        if n == "expected_av_nn_property":
            A = inst.neigh(a["ndir"], self.loops(inst), param)
            return A.dot(a["prop"]), A.sum(axis=1)
        if n == "expected_av_nn_degree":
            deg = inst.neigh(a["ddir"], self.loops(inst), param).sum(axis=1)
            A = inst.neigh(a["ndir"], self.loops(inst), param)
            return A.dot(deg), A.sum(axis=1)
        if n == "log_likelihood":
            m = inst.mask(self.loops(inst))
            if isinstance(a["adj"], list):
                with np.errstate(invalid="ignore"):
                    return sum(
                        ref.loglik(lg, A, m) for lg, A in zip(inst.logs(param), a["adj"])
                    )
            return ref.loglik(inst.logs_any(param), a["adj"], m)
        if n == "confusion_matrix":
            s = self.loops(inst)
            m = inst.mask(s) > 0
            P = inst.P(True, param)
            A = a["adj"] != 0
            out = np.zeros((4, len(a["thresholds"])))
            for k, th in enumerate(a["thresholds"]):
                pos = P >= th
                out[0, k] = (m & A & pos).sum()
                out[1, k] = (m & ~A & pos).sum()
                out[2, k] = (m & ~A & ~pos).sum()
                out[3, k] = (m & A & ~pos).sum()
            return out
        raise KeyError(n)

    def check(self, inst, got, param=None, where=""):
        want = self.want(inst, param)
        if self.name.startswith("expected_av"):
            num, den = want
            g = ref.to_array(got)
            if g.shape != den.shape:
                raise Violation(
                    "wrong-" + self.name,
                    "%s%r on %s: shape %s" % (where, self, inst.describe(), g.shape),
                )
            ok = den > 1e-7
            zero = den == 0
            w = np.where(ok, num / np.where(ok, den, 1.0), 0.0)
            bad = ok & ~(np.abs(g * den - num) <= 1e-9 * inst.N + 1e-7 * np.abs(num))
            bad |= zero & ~(g == 0)
            if np.any(bad):
                raise Violation(
                    "wrong-" + self.name,
                    "%s%r on %s: %s"
                    % (where, self, inst.describe(), ref.show(np.where(bad, g, w), w)),
                )
            return
        if self.name == "confusion_matrix":
            got = np.stack([np.asarray(x) for x in got])
            if not np.array_equal(got, want):
                raise Violation(
                    "wrong-" + self.name,
                    "%s%r on %s: %s" % (where, self, inst.describe(), ref.show(got, want)),
                )
            return
        scale = float(inst.N) ** 2 if self.name in TOTALS else float(inst.N)
        if self.name == "log_likelihood":
            scale = 1e3 * scale  # terms of links with probability ~1e-10
        if not ref.close(got, want, scale):
            raise Violation(
                "wrong-" + self.name,
                "%s%r on %s: %s" % (where, self, inst.describe(), ref.show(got, want)),
            )


TOTALS = ("expected_num_edges", "expected_num_edges_label", "log_likelihood")
SIMPLE = {
    "expected_num_edges",
    "expected_degree",
    "expected_out_degree",
    "expected_in_degree",
    "expected_num_edges_label",
    "expected_degree_by_label",
    "expected_out_degree_by_label",
    "expected_in_degree_by_label",
    "expected_total_weight",
}


def names(inst, groups=("expect", "nn")):
    out = []
    if "expect" in groups:
        out += [
            "expected_num_edges",
            "expected_degree",
            "expected_out_degree",
            "expected_in_degree",
        ]
        if inst.multi:
            out += [
                "expected_num_edges_label",
                "expected_degree_by_label",
                "expected_out_degree_by_label",
                "expected_in_degree_by_label",
            ]
        if inst.kind == "random":
            out += ["expected_total_weight"]
    if "nn" in groups:
        out += ["expected_av_nn_property", "expected_av_nn_degree"]
    if "like" in groups:
        out += ["log_likelihood"]
    if "confusion" in groups:
        out += ["confusion_matrix"]
    return out


def make(ctl, inst, name, recompute=True, backend="sparse"):
    """Draw the arguments of one query."""
    if name in SIMPLE:
        rc = recompute and ctl.choose(3) == 2
        return Query(name, recompute=rc)
    if name == "expected_av_nn_property":
        r = gen.rs(ctl)
        prop = [r.rand(inst.N), r.randn(inst.N), np.ones(inst.N)][ctl.choose(3)]
        return Query(
            name,
            prop=prop,
            ndir=ctl.pick(DIRS),
            selfloops=ctl.pick(["default", False, True, None]),
            recompute=recompute and ctl.choose(4) == 3,
        )
    if name == "expected_av_nn_degree":
        return Query(
            name,
            ddir=ctl.pick(DIRS),
            ndir=ctl.pick(DIRS),
            selfloops=ctl.pick(["default", False, True, None]),
            recompute=recompute and ctl.choose(4) == 3,
            deg_recompute=recompute and ctl.choose(4) == 3,
        )
    if name in ("log_likelihood", "confusion_matrix"):
        q = Query(name, selfloops=ctl.pick(["default", False, True, None]))
        s = q.loops(inst)
        A = gen.adjacency(ctl, inst, s)
        q.a["backend"] = backend
        q.a["form"] = ctl.pick(
            ["dense", "csr_array", "coo_array", "csr_matrix", "csc_array", "list", "graph", "zeros", "unsorted"]
        )
        if q.a["form"] == "csr_matrix" and backend == "dense" and not ctl.jit:
            q.a["form"] = "csr_array"
        # link weights are irrelevant to a binary likelihood
        r = gen.rs(ctl)
        shape = (inst.N, inst.N)
        q.a["wts"] = [
            np.ones(shape, int),
            np.ones(shape, bool),
            r.randint(1, 9, size=shape),
            r.rand(*shape) + 0.01,
        ][ctl.choose(4)]
        tensor = name == "log_likelihood" and inst.multi and ctl.choose(2)
        if not tensor:
            A = [(sum(A) > 0).astype(int)]
            logs = [inst.logs_any()]
        else:
            logs = inst.logs()
        if name == "log_likelihood":
            for x, (lp, lq) in zip(A, logs):
                # away from the last bits of the probabilities, where the
                # answer is dominated by rounding
                certain = np.isinf(lq)
                x[(lp < -23) & (x != 0)] = 0
                x[(lq < -600) & ~certain & (inst.mask(s) > 0)] = 1
                if inst.mask(s).sum() and ctl.choose(2 if inst.kind == "random" or inst.density == "max" else 6) == 0:
                    # one impossible link, or one (all but) certain link missing
                    m = inst.mask(s) > 0
                    bad = np.argwhere((np.isinf(lp) | certain | ((lq < -36) & (lq > -600))) & m)
                    if len(bad):
                        i, j = bad[ctl.choose(len(bad))]
                        x[i, j] = 1 - x[i, j]
        q.a["adj"] = A if tensor else A[0]
        if name == "confusion_matrix":
            P = inst.P(True).ravel()
            r = gen.rs(ctl)
            n = 1 + ctl.choose(5)
            # thresholds away from any attained probability
            u = np.unique(np.concatenate([[0.0], P, [1.0]]))
            th = []
            for _ in range(n):
                k = r.randint(len(u) - 1) if len(u) > 1 else 0
                lo, hi = u[k], u[min(k + 1, len(u) - 1)]
                if hi - lo > 1e-9:
                    th.append(lo + (hi - lo) * (0.25 + 0.5 * r.rand()))
            th.append(1.5)
            th.append(0.0)
            if inst.kind == "random":
                th.append(float(inst.param[0]))
            if getattr(inst, "density", None) == "exact":
                pos = u[(u > 0) & (u < 1)]
                if len(pos):
                    th.append(float(pos[r.randint(len(pos))]))
            th.append(-0.5)
            q.a["thresholds"] = np.array(th)
        return q
    raise KeyError(name)


def sibling(ctl, q):
    """The same question with one option changed and nothing recomputed."""
    import copy

    q = copy.copy(q)
    q.a = a = dict(q.a, recompute=False, deg_recompute=False)
    o = ctl.pick([k for k in ("selfloops", "ndir", "ddir") if k in a])
    a[o] = ctl.pick(["default", False, True, None] if o == "selfloops" else DIRS)
    return q
