"""The randomness seam.

Interpreted kernels (NUMBA_DISABLE_JIT=1) draw from numpy's legacy global
generator; compiled kernels draw from numba's own per-thread generators.  Both
are seeded and, per simulated process, saved/restored here.  `Scripted`
replaces the uniform draws of the interpreted kernels by an adversarial stream
(exact 0.0, the largest double below 1, runs of one value, ...).
"""
import os
import numpy as np

JIT = os.environ.get("NUMBA_DISABLE_JIT", "0") in ("0", "")
_real = {
    k: getattr(np.random, k)
    for k in ("random", "random_sample", "ranf", "sample", "rand", "uniform")
}

_numba_seed = None


def _get_numba_seed():
    global _numba_seed
    if _numba_seed is None:
        import numba

        @numba.njit
        def f(k):
            np.random.seed(k)

        _numba_seed = f
    return _numba_seed


def seed(k):
    """Seed every generator the kernels can draw from."""
    import random

    k = int(k) & 0x7FFFFFFF
    np.random.seed(k)
    random.seed(k)
    if JIT:
        _get_numba_seed()(k)


class Stream:
    """The generator state of one simulated process (driver or executor)."""

    def __init__(self, k):
        self.k = int(k)
        self.state = None
        self.n = 0

    def enter(self):
        if JIT:
            # numba's state is opaque: derive a fresh seed per task attempt
            seed((self.k * 1000003 + self.n * 7919 + 17) & 0x7FFFFFFF)
        else:
            if self.state is None:
                np.random.seed(self.k & 0x7FFFFFFF)
            else:
                np.random.set_state(self.state)
        self.n += 1

    def leave(self):
        if not JIT:
            self.state = np.random.get_state()


class Saved:
    """Save/restore the driver's own stream around executor work."""

    def __enter__(self):
        self.np = np.random.get_state()
        return self

    def __exit__(self, *a):
        np.random.set_state(self.np)
        return False


ONE = 1.0 - 2.0**-53


class Scripted:
    """Adversarial uniform stream for interpreted kernels.

    mode: 'plain' (seeded), 'zeros', 'ones', 'alt', 'rare', 'sparse', 'bursts'
    """

    MODES = ["plain", "zeros", "ones", "alt", "edge", "bursts"]

    def __init__(self, mode, k, row=None):
        self.mode = mode
        self.k = int(k)
        self.calls = 0
        self.burst = 0
        self.val = 0.0
        self.row = row

    def __enter__(self):
        seed(self.k)
        if self.mode != "plain" and not JIT:
            import random as _r

            self.r = _r.Random(self.k)
            np.random.random = np.random.random_sample = self.random
            np.random.ranf = np.random.sample = self.random
            np.random.rand = lambda *s: self.random(s if s else None)
            np.random.uniform = lambda low=0.0, high=1.0, size=None: (
                low + (high - low) * self.random(size)
            )
        return self

    def __exit__(self, *a):
        for k, v in _real.items():
            setattr(np.random, k, v)
        return False

    def one(self):
        self.calls += 1
        m = self.mode
        if m == "row":  # given draws first, ordinary ones after them
            c = self.calls - 1
            return self.row[c] if c < len(self.row) else self.r.random()
        if m == "zeros":
            return 0.0
        if m == "ones":
            return ONE
        if m == "alt":
            return 0.0 if self.calls % 2 else ONE
        if m == "edge":
            x = self.r.random()
            if x < 0.25:
                return 0.0
            if x < 0.5:
                return ONE
            if x < 0.6:
                return 2.0**-53
            return self.r.random()
        # bursts: long runs of the same extreme value, then ordinary draws
        if self.burst == 0:
            self.burst = 1 + int(self.r.random() * 40)
            x = self.r.random()
            self.val = 0.0 if x < 0.3 else ONE if x < 0.75 else -1.0
        self.burst -= 1
        return self.val if self.val >= 0 else self.r.random()

    def random(self, size=None):
        if size is None:
            return self.one()
        n = int(np.prod(size))
        return np.array([self.one() for _ in range(n)]).reshape(size)
