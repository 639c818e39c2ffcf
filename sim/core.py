"""Choice-driven simulation kernel.

A simulated run is a pure function of a list of choices.  In search mode the
choices come from a PRNG seeded with the run's seed; in replay mode they come
from a recorded list (padded with 0, the "nothing special" choice).  Every
generated input, schedule decision, fault and random stream goes through one
`Ctl`, so (a) one seed is one execution, (b) a recorded list replays it
exactly, and (c) minimisation is list surgery on that one record.
"""
import hashlib
import json
import random


class Violation(Exception):
    """The property does not hold on this run."""

    def __init__(self, kind, detail):
        super().__init__("%s: %s" % (kind, detail))
        self.kind = kind
        self.detail = detail


class Discard(Exception):
    """The generated case is outside the property's domain."""


class Unsupported(Exception):
    """The code used a facility the simulator does not implement."""


class StepBudget(BaseException):
    """The run exceeded its bounded number of simulated steps."""


class Ctl:
    def __init__(self, seed=None, replay=None, jit=False):
        self.seed = seed
        self.jit = jit
        self._rng = random.Random("ge-sim-%s" % (seed,)) if replay is None else None
        self._replay = list(replay) if replay is not None else None
        self._pos = 0
        self.choices = []
        self.trace = []
        self.faults = {}
        self.sched = hashlib.sha256()
        self.log_h = hashlib.sha256()
        self.sched_steps = 0
        self.sim_time = 0.0
        self.stats = {}
        self.nontrivial = False
        self.labels = set()

    # -- raw choice ------------------------------------------------------
    def choose(self, n, zero_bias=0.0):
        """An integer in [0, n). 0 is always the least interesting value."""
        if n <= 1:
            return 0
        if self._replay is not None:
            v = self._replay[self._pos] if self._pos < len(self._replay) else 0
            v = int(v) % n
            self._pos += 1
        else:
            if zero_bias and self._rng.random() < zero_bias:
                v = 0
            else:
                v = self._rng.randrange(n)
        self.choices.append(v)
        return v

    def flag(self, p):
        """True with probability p (recorded as 0/1)."""
        if self._replay is not None:
            return bool(self.choose(2))
        v = 1 if self._rng.random() < p else 0
        self.choices.append(v)
        return bool(v)

    def pick(self, seq):
        return seq[self.choose(len(seq))]

    def unit(self):
        """A float in [0, 1) with 2^-30 resolution."""
        return self.choose(1 << 30) / float(1 << 30)

    def seed32(self):
        return self.choose(1 << 31)

    # -- bookkeeping -----------------------------------------------------
    def log(self, *parts):
        if len(self.trace) < 4000:
            self.trace.append(" ".join(str(p) for p in parts))

    def fault(self, kind, *detail):
        self.faults[kind] = self.faults.get(kind, 0) + 1
        self.log("FAULT", kind, *detail)

    def step(self, *what):
        """One scheduling decision (enters the interleaving fingerprint)."""
        self.sched_steps += 1
        self.sched.update(repr(what).encode())

    def count(self, name, k=1):
        self.stats[name] = self.stats.get(name, 0) + k

    def label(self, *names):
        for n in names:
            self.labels.add(str(n))

    def obs(self, value):
        """Enter an observed result into the event log's digest."""
        self.log_h.update(_blob(value))

    def digest(self):
        h = self.log_h.copy()
        h.update(self.sched.digest())
        h.update("\n".join(self.trace).encode())
        h.update(repr(self.choices).encode())
        return h.hexdigest()[:20]

    def fingerprint(self):
        return self.sched.hexdigest()[:16]


def _blob(v):
    import numpy as np

    if v is None or isinstance(v, (str, bool, int)):
        return repr(v).encode()
    if isinstance(v, (tuple, list)):
        return b"(" + b",".join(_blob(x) for x in v) + b")"
    if hasattr(v, "toarray"):
        v = v.toarray()
    try:
        a = np.ascontiguousarray(v)
    except Exception:
        return type(v).__name__.encode()
    if a.dtype.kind not in "biufc":  # objects have no bytes of their own
        return type(v).__name__.encode()
    return a.tobytes()


def digest(obj):
    return hashlib.sha256(
        json.dumps(obj, sort_keys=True, default=str).encode()
    ).hexdigest()[:16]


def minimise(run, choices, budget=400, deadline=None):
    """Shrink a failing choice list. `run(choices)` -> failure kind or None."""
    import time

    best = list(choices)
    kind = run(best)
    if kind is None:
        return best, 0
    used = 1

    def out():
        return used >= budget or (deadline is not None and time.time() > deadline)

    def attempt(cand):
        nonlocal best, used
        if cand == best or out():
            return False
        used += 1
        if run(cand) == kind:
            best = cand
            return True
        return False

    # strip trailing part, then delete / zero chunks, then lower values
    lo, hi = 0, len(best)
    while lo < hi and not out():
        mid = (lo + hi) // 2
        if attempt(best[:mid]):
            hi = len(best)
            hi = mid
        else:
            lo = mid + 1
    improved = True
    while improved and not out():
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1 and not out():
            i = 0
            while i < len(best) and not out():
                chunk = best[i : i + size]
                if any(chunk) and attempt(best[:i] + [0] * len(chunk) + best[i + size :]):
                    improved = True
                elif attempt(best[:i] + best[i + size :]):
                    improved = True
                    continue
                i += size
            size //= 2
        for i in range(len(best)):
            if out():
                break
            v = best[i]
            while v > 0 and not out():
                nv = v // 2
                cand = best[:i] + [nv] + best[i + 1 :]
                if attempt(cand):
                    improved = True
                    v = nv
                else:
                    break
    while best and best[-1] == 0:
        best.pop()
    return best, used
