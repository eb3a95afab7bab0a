"""Owns the nondeterminism of the code under test: random draws and clocks.

install() must run before the code under test is imported, so that also
names bound by `from time import time` go through us.
"""
import contextlib
import random as _random
import threading
import time as _time

_real = dict(time=_time.time, monotonic=_time.monotonic,
             perf_counter=_time.perf_counter, time_ns=_time.time_ns,
             monotonic_ns=_time.monotonic_ns,
             perf_counter_ns=_time.perf_counter_ns, sleep=_time.sleep)


class VirtualClock:
    def __init__(self, start=1_700_000_000.0):
        self.now = start


_clock = None     # the VirtualClock in force


def _mk(name, ns):
    real = _real[name]

    def fn():
        if _clock is None:
            return real()
        return int(_clock.now * 10 ** 9) if ns else _clock.now
    fn.__name__ = name
    return fn


def _sleep(s):
    if _clock is None:
        return _real["sleep"](s)
    _clock.now += s


@contextlib.contextmanager
def virtual_clock(clock=None):
    global _clock
    old, _clock = _clock, clock or VirtualClock()
    try:
        yield _clock
    finally:
        _clock = old


# --------------------------------------------------------------------------
# Random draws
# --------------------------------------------------------------------------
class Draws:
    """Decides random draws.  Subclass or pass functions."""

    def __init__(self, unit=None, integer=None, other=None):
        self._unit, self._integer, self._other = unit, integer, other

    def unit(self):
        """A draw from [0, 1)."""
        if self._unit is None:
            raise RuntimeError("unexpected real-valued random draw")
        return self._unit()

    def integer(self, lo, hi):
        """A draw from lo .. hi - 1."""
        if self._integer is None:
            raise RuntimeError("unexpected integer random draw")
        if hi <= lo:
            raise ValueError("empty range for a random draw: [%r, %r)" % (lo, hi))
        return self._integer(int(lo), int(hi))


class _Local(threading.local):
    def __init__(self):
        self.stack = []        # innermost decides


_local = _Local()


def _d():
    return _local.stack[-1] if _local.stack else None


@contextlib.contextmanager
def draws(d):
    stack = _local.stack
    stack.append(d)
    try:
        yield d
    finally:
        stack.remove(d)


def _orig(mod, name):
    return getattr(mod, name, None)


def _shape(size, one):
    import numpy as np
    if size is None:
        return one()
    n = int(np.prod(size))
    return np.array([one() for _ in range(n)]).reshape(size)


def install():
    import numpy as np
    for name in _real:
        if name != "sleep":
            setattr(_time, name, _mk(name, name.endswith("_ns")))
    _time.sleep = _sleep

    R = _random
    N = np.random
    ro = {k: getattr(R, k) for k in ("random", "randint", "randrange", "uniform",
                                     "choice", "getrandbits", "expovariate")}
    no = {k: getattr(N, k) for k in ("random", "rand", "random_sample", "ranf",
                                     "sample", "randint", "uniform", "choice",
                                     "exponential", "default_rng",
                                     "random_integers") if hasattr(N, k)}

    # --- module random ---
    R.random = lambda: _d().unit() if _d() else ro["random"]()
    R.uniform = lambda a, b: a + (b - a) * _d().unit() if _d() else ro["uniform"](a, b)
    R.randint = lambda a, b: _d().integer(a, b + 1) if _d() else ro["randint"](a, b)

    def randrange(start, stop=None, step=1):
        if not _d():
            return ro["randrange"](start, stop, step) if stop is not None else ro["randrange"](start)
        if stop is None:
            start, stop = 0, start
        return _d().integer(start, stop)
    R.randrange = randrange
    R.choice = lambda seq: seq[_d().integer(0, len(seq))] if _d() else ro["choice"](seq)
    R.getrandbits = lambda k: _d().integer(0, 1 << k) if _d() else ro["getrandbits"](k)

    # --- numpy.random ---
    def n_random(size=None):
        return _shape(size, _d().unit) if _d() else no["random"](size)

    def n_rand(*shape):
        if not _d():
            return no["rand"](*shape)
        return _shape(shape or None, _d().unit)

    def n_uniform(low=0.0, high=1.0, size=None):
        if not _d():
            return no["uniform"](low, high, size)
        return _shape(size, lambda: low + (high - low) * _d().unit())

    def n_randint(low, high=None, size=None, dtype=int):
        if not _d():
            return no["randint"](low, high, size, dtype)
        if high is None:
            low, high = 0, low
        return _shape(size, lambda: _d().integer(low, high))

    def n_choice(a, size=None, replace=True, p=None):
        if not _d() or p is not None:
            return no["choice"](a, size, replace, p)
        seq = list(range(a)) if isinstance(a, int) else list(a)
        return _shape(size, lambda: seq[_d().integer(0, len(seq))])

    class Generator:
        """Decided by us while draws are in force, wherever it was made."""

        def __init__(self, *a, **k):
            self._real = no["default_rng"](*a, **k)

        def __getattr__(self, name):
            return getattr(self._real, name)

        def random(self, size=None, *a, **k):
            return n_random(size) if _d() else self._real.random(size, *a, **k)

        def uniform(self, low=0.0, high=1.0, size=None):
            return n_uniform(low, high, size) if _d() else self._real.uniform(low, high, size)

        def choice(self, a, size=None, replace=True, p=None, **k):
            return n_choice(a, size, replace, p) if _d() else self._real.choice(a, size, replace, p, **k)

        def integers(self, low, high=None, size=None, dtype=int, endpoint=False):
            if not _d():
                return self._real.integers(low, high, size, dtype, endpoint)
            if high is None:
                low, high = 0, low
            return n_randint(low, high + (1 if endpoint else 0), size)

    N.random, N.random_sample, N.ranf, N.sample = n_random, n_random, n_random, n_random
    N.rand, N.uniform, N.randint, N.choice = n_rand, n_uniform, n_randint, n_choice
    N.default_rng = Generator


def fast_array_printing():
    """The RFID model formats positions into disabled log records; make that
    cheap (never used where printed output is examined)."""
    try:
        from numpy._core import arrayprint
        arrayprint._default_array_str.keywords["array2string"] = \
            lambda a, *args, **kw: "[%s]" % ", ".join(map(repr, a.ravel().tolist()))
    except Exception:
        pass
