"""Crash injection: stop a library call at a chosen point of its execution.

A point is a Python line (or function entry) of the library at which CPython
can deliver an exception the code did not raise itself: an asynchronous
interrupt (delivered at calls and at loop back edges) or a failed allocation
(in calls and arithmetic).  Lines that only move references about are not
points: no interpreter stops between two plain stores.
"""
import dis
import os
import sys

import numpy as np
import scipy.sparse as sp

from . import runner

ROOT = os.path.join(os.path.abspath(runner.REPO), "src", "graph_ensembles") + os.sep
SUSPENDED = 0  # >0 while a simulated remote task runs

_OPS = {
    "CALL", "CALL_FUNCTION_EX", "CALL_KW", "BINARY_OP", "FOR_ITER", "JUMP_BACKWARD",
    "JUMP_BACKWARD_NO_INTERRUPT", "IMPORT_NAME", "CALL_INTRINSIC_1", "YIELD_VALUE",
}
_lines = {}
_mine = {}


def points(code):
    """Line numbers of `code` at which an exception can be delivered."""
    got = _lines.get(code)
    if got is None:
        got = set()
        line = None
        for ins in dis.get_instructions(code):
            if ins.positions is not None and ins.positions.lineno is not None:
                line = ins.positions.lineno
            if ins.opname in _OPS and line is not None:
                got.add(line)
        _lines[code] = got
    return got


def library(code):
    ok = _mine.get(code)
    if ok is None:
        ok = _mine[code] = os.path.abspath(code.co_filename).startswith(ROOT)
    return ok


def where(frame, event):
    f = frame.f_code
    return "%s:%s %s%s" % (
        os.path.relpath(f.co_filename, ROOT), frame.f_lineno, f.co_qualname,
        " (entry)" if event == "call" else "",
    )


def method_level(frame):
    c = frame.f_code
    if c.co_filename.endswith("solver.py") or c.co_varnames[:1] == ("g",):
        return True
    return c.co_argcount > 0 and c.co_varnames[0] == "self"


_after = {}
_CALLS = {"CALL", "CALL_FUNCTION_EX", "CALL_KW", "CALL_INTRINSIC_1"}
_STORES = {"STORE_ATTR", "DELETE_ATTR", "STORE_SUBSCR", "DELETE_SUBSCR", "STORE_GLOBAL", "STORE_SLICE", "STORE_DEREF"}


def after(code):
    """Lines whose last visible effect is a call: threads can switch when it
    has returned, just before the line executed next."""
    got = _after.get(code)
    if got is None:
        got = {}
        line = None
        for ins in dis.get_instructions(code):
            if ins.positions is not None and ins.positions.lineno is not None:
                line = ins.positions.lineno
            if line is None:
                continue
            if ins.opname in _CALLS:
                got[line] = True
            elif ins.opname in _STORES:
                got[line] = False
        got = _after[code] = {k for k, v in got.items() if v}
    return got


class _Tracer:
    def __init__(self, hit, fine=False):
        self.hit, self.fine = hit, fine

    def glob(self, frame, event, arg):
        if not library(frame.f_code):
            return None
        if SUSPENDED == 0:
            self.hit(frame, event)
        if self.fine:
            return self.finer(frame)
        return self.local

    def finer(self, frame):
        pts, aft = points(frame.f_code), after(frame.f_code)
        prev = [None]

        def local(f, event, arg):
            if event == "line" and SUSPENDED == 0:
                n = f.f_lineno
                if n in pts or (prev[0] in aft and prev[0] != n):
                    self.hit(f, event)
                prev[0] = n
            return local

        return local

    def local(self, frame, event, arg):
        if event == "line" and SUSPENDED == 0 and frame.f_lineno in points(frame.f_code):
            self.hit(frame, event)
        return self.local


def traced(fn, hit, fine=False):
    t = _Tracer(hit, fine)
    old = sys.gettrace()
    sys.settrace(t.glob)
    try:
        return fn()
    finally:
        sys.settrace(old)


def _state(obj):
    """The attributes of obj (kept alive, such that identities stay distinct)
    and the contents of small arrays in them."""
    vals, small = list(obj.__dict__.values()), []
    for v in vals:
        d = v.data if sp.issparse(v) else v
        if isinstance(d, np.ndarray) and d.size <= 64 and d.dtype != object:
            small.append(d.tobytes())
    return list(obj.__dict__), vals, small


def _changed(a, b):
    return a[0] != b[0] or a[2] != b[2] or any(x is not y for x, y in zip(a[1], b[1]))


class Points(list):
    """Indices of the points at method level; .writes are the positions in
    this list that come right after an attribute of the object was written."""

    writes = ()


def survey(fn, limit=200000, watch=None, fine=False):
    """Run fn undisturbed; returns (result, points at method level, all)."""
    meth, n = Points(), [0]
    meth.writes = []
    last = [_state(watch) if watch is not None else None]

    def hit(frame, event):
        if n[0] < limit and method_level(frame):
            if watch is not None:
                now = _state(watch)
                if _changed(now, last[0]):
                    last[0] = now
                    meth.writes.append(len(meth))
            meth.append(n[0])
        n[0] += 1

    r = traced(fn, hit, fine)
    return r, meth, n[0]


class Crash:
    """Result of a disturbed call."""

    def __init__(self):
        self.fired = None  # where
        self.exc = None
        self.result = None


def crash(fn, k, exc):
    """Run fn and raise exc at its k-th point."""
    c = Crash()
    n = [0]

    def hit(frame, event):
        i = n[0]
        n[0] += 1
        if i == k:
            c.fired = where(frame, event)
            raise exc

    try:
        c.result = traced(fn, hit)
    except BaseException as e:
        c.exc = e
    return c


def pick(ctl, meth, total):
    """Choose a point: half of the time among those of methods."""
    if total == 0:
        return None
    writes = getattr(meth, "writes", ())
    if writes and ctl.choose(3) == 2:
        return meth[writes[ctl.choose(len(writes))]]
    if meth and ctl.choose(4) < 3:
        # half of those among the last few: where results are published
        if ctl.choose(2) and len(meth) > 8:
            return meth[-1 - ctl.choose(8)]
        return meth[ctl.choose(len(meth))]
    return ctl.choose(total)


EXC = [KeyboardInterrupt, MemoryError]


def twin(obj, sc=None):
    """An independent copy to rehearse a call on, or None."""
    import copy

    memo = {}
    if sc is not None:
        memo[id(sc)] = sc
    try:
        return copy.deepcopy(obj, memo)
    except Exception:
        return None


def disturb(ctl, obj, op, sc=None, fresh=None, reseed=None):
    """Rehearse op on a copy of obj, then run it on obj cut short at a point
    chosen by the seed (for Spark objects also: at a job of the cluster)."""
    from .core import StepBudget, Unsupported, Violation, Discard

    t = twin(obj, sc)
    if t is None and fresh is not None:
        t = fresh()
    if reseed:
        reseed()
    jobs0 = sc.jobs if sc is not None else 0
    if t is not None:
        _, meth, total = survey(lambda: op(t), watch=t)
    else:
        meth, total = [], 1 << (1 + ctl.choose(12))
    if reseed:
        reseed()
    njobs = (sc.jobs - jobs0) if sc is not None else 0
    if njobs and ctl.choose(3):
        kind = ["abort_job", "interrupt_job"][ctl.choose(2)]
        # most jobs of a fit belong to the solver: early, late or anywhere
        w = ctl.choose(3)
        off = [ctl.choose(njobs), ctl.choose(min(3, njobs)), njobs - 1 - ctl.choose(min(3, njobs))][w]
        sc._profile[kind] = sc.jobs + 1 + off
        c = Crash()
        n = ctl.faults.get("job_abort", 0) + ctl.faults.get("driver_interrupt", 0)
        try:
            c.result = op(obj)
        except (Violation, Unsupported, StepBudget, Discard):
            raise
        except BaseException as e:
            c.exc = e
        finally:
            sc._profile[kind] = None
        if ctl.faults.get("job_abort", 0) + ctl.faults.get("driver_interrupt", 0) > n:
            c.fired = "%s %d of %d" % (kind, off + 1, njobs)
    else:
        k = pick(ctl, meth, total)
        exc = EXC[ctl.choose(2)]
        c = crash(lambda: op(obj), -1 if k is None else k, exc())
        if c.fired:
            ctl.fault("crash_" + exc.__name__, "at", c.fired)
        if isinstance(c.exc, (Unsupported, StepBudget, Discard)):
            raise c.exc
    if c.fired is None and c.exc is not None:
        raise c.exc
    ctl.step("crash", c.fired)
    return c
