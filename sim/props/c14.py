"""C14: in memory calibration: bounded progress, truthful reports."""
import numpy as np

from .. import fits, gen, observed, queries, ref, target
from ..core import Discard, Violation
from .common import lib

PLAN = {
    "quick": {"int": (5600, 7, 220), "jit": (60, 1, 220)},
    "thorough": {"int": (90000, 6, 1500), "jit": (3000, 2, 1500)},
}
RULE = (
    "one run = a seeded fit of one in memory ensemble (dense, sparse, conditional; from"
    " targets or from an observed graph) or a seeded call of the solver with a monotonic"
    " objective that may fail at a seeded evaluation; non-trivial = at least one solver"
    " iteration or an injected failure; distinct = different (ensemble or objective, target,"
    " options)"
)
REAL = [
    "graph_ensembles.solver, graph_ensembles.models, graph_ensembles.sparse.models",
    "graph_ensembles.graphs, graph_ensembles.sparse.graphs (observed graphs)",
]
STUB = ["the objective in the direct solver runs (closed form, seeded failures)"]
ASSUME = [
    "targets lie between 0.1% and 99% of the largest attainable expectation",
    "direct solver runs: objectives of the ensembles' own shape on [0, inf), or strictly monotonic ones on a finite bracket with the root inside",
    "bounded progress: at most max_iter + 1 evaluations of the objective",
]


class Boom(Exception):
    pass


def run(ctl):
    mode = ctl.pick(["fit", "graph", "solver", "fit"])
    ctl.label("mode:" + mode)
    if mode == "solver":
        return direct(ctl)
    if mode == "graph":
        return observed.fit(ctl)
    t = target.make(ctl, target.MEM, fit=True, big=0.4 if ctl.choose(4) == 3 else 0.25, extreme=False)
    f = t.fitcase
    ctl.log(t.backend, t.inst.describe(), f)
    ctl.step(t.backend, repr(f), str(t.inst.describe()))
    m = lib(ctl, "constructor", t.new, bool(ctl.choose(3) == 2))
    warned = lib(ctl, "%r on %s %s" % (f, t.backend, t.inst.describe()), fits.run, m, f)
    fits.judge(m, f, warned, t.backend + " ")
    ctl.obs(np.asarray(m.param, float))
    q = t.query("expected_num_edges")
    q.check(t.inst, lib(ctl, repr(q), q.ask, m), param=np.asarray(m.param, float), where="after fit: ")
    if ctl.choose(3) == 0 and t.inst.kind != "random" and np.all(np.isfinite(m.param)):
        again(ctl, t, m)
    if t.inst.kind != "random" and not isinstance(m.solver_output, (list, tuple)):
        ctl.nontrivial = m.solver_output.n_iter > 0
    else:
        ctl.nontrivial = True


def again(ctl, t, m):
    """Fitting again from the solution stays at the solution."""
    f = fits.Fit(t.inst, t.fitcase.targets, {})
    if t.inst.multi and ctl.choose(2):
        f.kw["x0"] = np.asarray(m.param, float).copy()
    else:
        f.kw["x0"] = float(np.ravel(m.param)[0])
    if ctl.choose(3) == 0:
        f.kw["atol"] = 0.0
    ctl.log("again", f)
    warned = lib(ctl, "%r again on %s %s" % (f, t.backend, t.inst.describe()), fits.run, m, f)
    fits.judge(m, f, warned, t.backend + " again ")
    ctl.count("refits")


def general(ctl):
    """Any strictly monotonic objective, root inside a finite bracket."""
    from graph_ensembles.solver import monotonic_newton_solver

    r = gen.rs(ctl)
    k = 1 + ctl.choose(5)
    c = r.randn(k) * [1, 3][ctl.choose(2)]
    s = np.exp(r.randn(k) * 0.7)
    w = 0.2 + r.rand(k)
    lin = [0.3, 0.01, 0.05][ctl.choose(3)]
    sg = [1.0, -1.0][ctl.choose(2)]
    off = [0.0, 3.0][ctl.choose(2)] if sg > 0 else 20 * lin + w.sum() + 1

    def fun(x):
        calls[0] += 1
        if calls[0] > lim + 1:
            raise Violation("no-progress", "more than %d evaluations" % (lim + 1))
        x = float(np.ravel(x)[0])
        e = 1 / (1 + np.exp(-np.clip(s * (x - c), -700, 700)))
        return (
            sg * (float((w * e).sum()) + lin * x) + off,
            sg * (float((w * s * e * (1 - e)).sum()) + lin),
        )

    calls = [0]
    lim = 5000
    A = [20.0, 7.0, 50.0][ctl.choose(3)]
    lo, hi = fun(-A)[0], fun(A)[0]
    goal = lo + [0.5, 0.1, 0.9, 0.3][ctl.choose(4)] * (hi - lo)
    if goal < 0.05 * abs(hi - lo):
        raise Discard("relative tolerance of a target near zero")
    x0 = [0.0, r.uniform(-A, A), -A, A, r.randn()][ctl.choose(5)]
    kw = dict(x_l=-A, x_u=A, max_iter=lim, full_return=True)
    if ctl.choose(3) == 2:
        kw["rtol"] = 1e-6
    what = "solver(%d sigmoids and slope %g, target %.4g, x0=%g, %s)" % (k, sg * lin, goal, x0, kw)
    ctl.log(what)
    ctl.step(what)
    ctl.nontrivial = True
    calls[0] = 0
    sol = lib(ctl, what, monotonic_newton_solver, np.array([float(x0)]), fun, goal, **kw)
    x = float(np.ravel(sol.x)[0])
    calls[0] = 0
    err = abs(fun(x)[0] - goal)
    tol = kw.get("rtol", 1e-9) * goal
    if not (-A <= x <= A):
        raise Violation("outside-bracket", "%s: x=%r" % (what, x))
    if not bool(sol.converged) or err > tol * 1.000001 + 1e-12:
        raise Violation("not-converged", "%s: x=%r error %g after %d" % (what, x, err, sol.n_iter))
    ctl.obs(x)


def direct(ctl):
    from graph_ensembles.solver import monotonic_newton_solver

    if ctl.choose(3) == 2:
        return general(ctl)
    r = gen.rs(ctl)
    k = 1 + ctl.choose(30)
    z = np.exp(r.randn(k) * [0.5, 1.5, 3.0][ctl.choose(3)])
    fam = ctl.pick(["fitness", "invariant"])
    frac = [0.3, 0.05, 0.6, 0.9, 0.99, 0.001][ctl.choose(6)]
    goal = frac * k
    calls = [0]
    fail_at = 1 + ctl.choose(8) if ctl.choose(3) == 2 else None

    def value(x):
        if fam == "fitness":
            return float(np.sum(np.where(np.isinf(x * z), 1.0, x * z / (1 + x * z))))
        return float(np.sum(-np.expm1(-x * z)))

    def slope(x):
        if fam == "fitness":
            return float(np.sum(z / (1 + x * z) ** 2))
        return float(np.sum(z * np.exp(-x * z)))

    x0 = [0.0, 1.0 / z.sum(), 1.0, 1e3, 1e-6, 1e6][ctl.choose(6)]
    kw = {}
    c = ctl.choose(5)
    if c == 1:
        kw["rtol"] = 1e-6
    elif c == 2:
        kw["max_iter"] = ctl.choose(7)
    elif c == 3:
        kw.update(atol=1e-30, rtol=1e-10)
    elif c == 4:
        kw.update(atol=1e-3, rtol=0.0)
    lim = kw.get("max_iter", 100)

    def fun(x):
        calls[0] += 1
        if calls[0] > lim + 1:
            raise Violation("no-progress", "more than %d evaluations" % (lim + 1))
        if fail_at is not None and calls[0] == fail_at:
            ctl.fault("objective_failure", "evaluation", fail_at)
            raise Boom("evaluation %d" % fail_at)
        x = float(np.ravel(x)[0])
        return value(x), slope(x)

    what = "solver(%s, %d terms, target %.4g, x0=%g, %s)" % (fam, k, goal, x0, kw)
    ctl.log(what, "fail at", fail_at)
    ctl.step(what, fail_at)
    ctl.nontrivial = True
    if ctl.choose(8) == 7:
        # a starting point outside the bracket is refused
        try:
            sol = monotonic_newton_solver(
                np.array([x0 + 1.0]), fun, goal, x_l=0.0, x_u=x0 + 0.5, full_return=True, **kw
            )
        except (ValueError, Boom):
            return
        raise Violation("bracket", "%s accepted a start above its bracket: %r" % (what, sol.x))
    arg = np.array([x0])
    keep = arg.copy()
    try:
        sol = monotonic_newton_solver(
            arg, fun, goal, x_l=0.0, x_u=np.inf, full_return=True, **kw
        )
    except Boom:
        return
    except Exception as e:
        if isinstance(e, Violation):
            raise
        raise Violation("raised-" + type(e).__name__, "%s: %s" % (what, e))
    if fail_at is not None and calls[0] >= fail_at:
        raise Violation("swallowed-failure", what + ": the objective failed and a solution came back")
    if not np.array_equal(arg, keep):
        raise Violation("argument-changed", what + ": the starting point was modified")
    x = float(np.ravel(sol.x)[0])
    if not x >= 0:
        raise Violation("bad-parameter", "%s: %r" % (what, x))
    err = abs(value(x) - goal)
    tol = kw.get("atol", 1e-24) + kw.get("rtol", 1e-9) * goal
    slack = 1e-13 * k
    if bool(sol.converged) and err > tol * 1.000001 + slack:
        raise Violation("false-convergence", "%s: x=%r error %g" % (what, x, err))
    if not bool(sol.converged) and err < tol * 0.999999 - slack:
        raise Violation("false-failure", "%s: x=%r error %g" % (what, x, err))
    if sol.n_iter > lim:
        raise Violation("too-many-iterations", "%s: %d" % (what, sol.n_iter))
    if "max_iter" not in kw and kw.get("atol", 0) < 1e-12 and not bool(sol.converged):
        raise Violation("not-converged", "%s: x=%r error %g after %d" % (what, x, err, sol.n_iter))
    if bool(sol.max_iter_reached) != (sol.n_iter >= lim):
        raise Violation("bad-report", "%s: max_iter_reached=%s after %d" % (what, sol.max_iter_reached, sol.n_iter))
    calls[0] = 0
    x2 = monotonic_newton_solver(np.array([x0]), lambda t: (value(float(t[0])), slope(float(t[0]))), goal, x_l=0.0, x_u=np.inf, **kw)
    if not np.array_equal(np.ravel(x2), np.ravel(sol.x)):
        raise Violation("short-return", "%s: %r instead of %r" % (what, x2, sol.x))
    ctl.obs(x)
