"""Calibration cases: feasible targets, starting points, and the oracle."""
import contextlib
import io
import re
import warnings

import numpy as np

from . import gen, queries
from .core import Discard, Violation


class Fit:
    """What to fit an ensemble to, and how."""

    def __init__(self, inst, targets, kwargs):
        self.inst, self.targets, self.kw = inst, targets, kwargs
        self.form = 0
        self.said = None

    def __repr__(self):
        t = {k: np.round(np.asarray(v, float), 6).tolist() for k, v in self.targets.items()}
        return "fit(%s) to %s" % (self.kw, t)

    def want(self):
        """[(name, target)] as arrays."""
        t = self.targets
        if "num_edges_label" in t:
            return np.asarray(t["num_edges_label"], float)
        return np.array([float(t["num_edges"])])

    def reached(self, param):
        """The independent expectation at the fitted parameters."""
        inst = self.inst
        if "num_edges_label" in self.targets:
            return np.array([p.sum() for p in inst.PK(param=param)])
        return np.array([inst.P(param=param).sum()])


def support(inst):
    """Largest attainable expectation(s)."""
    top = np.full(inst.L or 1, np.inf)
    return inst.P(param=top).sum(), [p.sum() for p in inst.PK(param=top)]


FRACS = [0.3, 0.05, 0.6, 0.9, 0.99, 0.001]


def draw(ctl, inst, tols=True):
    kw = {}
    if inst.kind == "random":
        pairs = inst.mask().sum()
        n = float(max(1, round(ctl.pick(FRACS) * pairs))) if ctl.choose(2) else ctl.pick(FRACS) * pairs
        t = {"num_edges": n, "total_weight": n * (1.0 + 3.0 * ctl.unit() + 0.01)}
        if ctl.choose(4) == 3:
            t.pop("total_weight")
        f = Fit(inst, t, kw)
        f.form = ctl.choose(4)
        return f
    tot, lab = support(inst)
    if tot <= 0:
        raise Discard("no pair can be linked")
    if inst.multi and inst.per_label:
        t = {"num_edges_label": np.array([ctl.pick(FRACS) * s for s in lab])}
    else:
        t = {"num_edges": ctl.pick(FRACS) * tot}
    x0 = ctl.choose(5)
    fin = [v for v in np.ravel(inst.param) if np.isfinite(v)]
    base = float(fin[0]) if fin else 1.0
    if x0 == 1:
        kw["x0"] = base
    elif x0 == 2:
        kw["x0"] = base * 1e3
    elif x0 == 3:
        kw["x0"] = base * 1e-4
    elif x0 == 4 and inst.multi:
        kw["x0"] = np.array([base * (0.5 + k) for k in range(inst.L)])
    if not inst.multi and "x0" in kw and ctl.choose(2):
        kw["x0"] = np.array([kw["x0"]])
    if tols:
        tol = ctl.choose(5)
        if tol == 1:
            kw["rtol"] = 1e-6
        elif tol == 2:
            kw.update(atol=1e-12, rtol=1e-10)
        elif tol == 3:
            kw["maxiter"] = 1 + ctl.choose(6)
        elif tol == 4:
            kw["rtol"] = 1e-17  # may be out of reach of the arithmetic
    if ctl.choose(4) == 3:
        kw["verbose"] = [True, 2][ctl.choose(2)]
    f = Fit(inst, t, kw)
    f.form = ctl.choose(4)
    return f


def draw_cond(ctl, inst):
    """Conditional ensemble: between one link per macro link and all pairs."""
    low = float((inst.macro != 0).sum())
    top = float(((inst.z() > 0) & (inst.expand(inst.macro) != 0)).sum())
    if top - low < 0.5:
        raise Discard("the macro graph leaves no freedom")
    kw = {}
    # the least is one link for each macro link, in the limit of a null parameter
    t = {"num_edges": low + [0.3, 0.05, 0.6, 0.9, 0.97, 0.0][ctl.choose(6)] * (top - low)}
    x0 = ctl.choose(4)
    base = float(inst.param[0])
    if x0:
        kw["x0"] = [base, base * 100, base * 1e-3][x0 - 1]
        # not where the slope is lost to rounding
        while top - inst.P(param=np.array([kw["x0"]])).sum() < 1e-6 * top:
            kw["x0"] /= 2
    tol = ctl.choose(3)
    if tol == 1:
        kw["rtol"] = 1e-6
    elif tol == 2:
        kw["maxiter"] = 1 + ctl.choose(6)
    f = Fit(inst, t, kw)
    f.form = ctl.choose(4)
    return f


def run(m, fit):
    """Call fit; returns the warnings issued."""
    out = io.StringIO()
    with warnings.catch_warnings(record=True) as ws, contextlib.redirect_stdout(out):
        warnings.simplefilter("always")
        kw = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in fit.kw.items()}
        m.fit(**kw)
        for k, v in fit.kw.items():
            if not np.array_equal(kw[k], v):
                raise Violation("argument-changed", "%r: the fit changed its argument %s" % (fit, k))
    fit.said = [x == "True" for x in re.findall(r"Converged:\s+\[?(True|False)", out.getvalue())]
    return [str(w.message) for w in ws]


def judge(m, fit, warned, where=""):
    """The fitted parameters reach the target, and the flag says so."""
    inst = fit.inst
    what = "%s%r on %s" % (where, fit, inst.describe())
    par = np.asarray(m.param, float)
    if inst.kind == "random":
        t = fit.targets
        pairs = inst.mask().sum()
        if abs(par[0] * pairs - t["num_edges"]) > 1e-9 * pairs:
            raise Violation("target-missed", "%s: p=%r" % (what, par[0]))
        if "total_weight" not in t:
            return
        q = par[1]
        w = t["num_edges"] / (1 - q) if inst.discrete else t["num_edges"] / q
        if abs(w - t["total_weight"]) > 1e-8 * t["total_weight"]:
            raise Violation("target-missed", "%s: total weight %r" % (what, w))
        return
    L = inst.L or 1
    if par.shape != (L,):
        raise Violation("bad-parameter", "%s: parameter shape %s" % (what, par.shape))
    if np.any(np.isnan(par)) or np.any(par < 0):
        raise Violation("bad-parameter", "%s: parameter %s" % (what, par))
    if "num_edges_label" not in fit.targets and np.any(par != par[0]):
        raise Violation("bad-parameter", "%s: labels differ %s" % (what, par))
    target, got = fit.want(), fit.reached(par)
    atol, rtol = fit.kw.get("atol", 1e-24), fit.kw.get("rtol", 1e-9)
    tol = atol + rtol * target
    slack = 1e-13 * inst.N**2 * (1 + got)  # different summation order
    err = np.abs(got - target)
    sol = m.solver_output
    sols = sol if isinstance(sol, (list, tuple)) else [sol]
    flags = np.array([bool(np.all(s.converged)) for s in sols])
    if len(flags) != len(target):
        raise Violation("bad-report", "%s: %d reports for %d targets" % (what, len(flags), len(target)))
    if np.any(flags & (err > tol * 1.000001 + slack)):
        raise Violation(
            "false-convergence",
            "%s: reports convergence with expectation %s" % (what, got.tolist()),
        )
    if np.any(~flags & (err < tol * 0.999999 - slack)):
        raise Violation(
            "false-failure", "%s: reports no convergence at %s" % (what, got.tolist())
        )
    if bool(np.any(~flags)) != any("converge" in w for w in warned):
        raise Violation("warning", "%s: converged=%s warnings=%s" % (what, flags.tolist(), warned))
    driver = len(flags) == 1 or not hasattr(m, "sc")  # else printed by tasks
    if driver and fit.said and len(fit.said) == len(flags) and fit.said != flags.tolist():
        raise Violation("bad-report", "%s: prints converged=%s, reports %s" % (what, fit.said, flags.tolist()))
    near = rtol < 1e-12 and np.all(err <= 1e-9 * target + slack)
    if "maxiter" not in fit.kw and not np.all(flags) and not near:
        raise Violation(
            "not-converged", "%s: stopped at expectation %s" % (what, got.tolist())
        )
    for s in sols:
        if s.n_iter > fit.kw.get("maxiter", 100):
            raise Violation("too-many-iterations", "%s: %d" % (what, s.n_iter))


def as_given(fit):
    """The targets in one of the forms the constructors take."""
    t = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in fit.targets.items()}
    if "num_edges" in t:
        n = t["num_edges"]
        if fit.form == 1:
            t["num_edges"] = np.array([n])
        elif fit.form == 2:
            t["num_edges"] = [n]
        elif fit.form == 3 and n == int(n):
            t["num_edges"] = int(n)
    if "total_weight" in t and fit.form in (1, 2):
        t["total_weight"] = [[t["total_weight"]], np.array([t["total_weight"]])][fit.form - 1]
    return t


def build(inst, fit, backend, sc=None, p_blocks=None, param=False):
    t = as_given(fit)
    if inst.kind == "random":
        return gen.build(inst, backend, sc, param=param, targets=t, p_blocks=p_blocks)
    if inst.multi:
        t["per_label"] = "num_edges_label" in t
    return gen.build(inst, backend, sc, param=param, targets=t, p_blocks=p_blocks)
