"""
Environment of every monitor: imports the library from the working tree of the repository
under test, after installing a controllable clock and a controllable random source, so that
they are seen however the library imports them (``import time`` or ``from time import time``).
"""
import os
import random
import sys
import time

REPO = os.environ.get("VMON_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for p in (VERIF, REPO):
    if p in sys.path:
        sys.path.remove(p)
sys.path.insert(0, VERIF)
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

REAL_TIME = time.time
REAL_MONO = time.monotonic
REAL_PERF = time.perf_counter


class Clock:
    """When active, each reading advances a fake clock by ``step()`` seconds."""

    def __init__(self):
        self.active = False
        self.now = 0.0
        self.step = None
        self.reads = 0

    def read(self):
        self.reads += 1
        self.now += self.step()
        return self.now


CLOCK = Clock()


def _time():
    return CLOCK.read() if CLOCK.active else REAL_TIME()


def _mono():
    return CLOCK.read() if CLOCK.active else REAL_MONO()


def _perf():
    return CLOCK.read() if CLOCK.active else REAL_PERF()


time.time = _time
time.monotonic = _mono
time.perf_counter = _perf


class fake_clock:
    """Context manager installing a fake clock; step is a number or a callable."""

    def __init__(self, step):
        self.step = step if callable(step) else (lambda: step)

    def __enter__(self):
        self.saved = (CLOCK.active, CLOCK.now, CLOCK.step)
        CLOCK.active, CLOCK.now, CLOCK.step = True, 1000.0, self.step
        CLOCK.reads = 0
        return CLOCK

    def __exit__(self, *exc):
        CLOCK.active, CLOCK.now, CLOCK.step = self.saved
        return False


# ---------------------------------------------------------------- random source
class RandomSource:
    """
    When ``handler`` is set every draw made through the module level functions of
    ``random`` is answered by ``handler(n)`` (a number in range(n)).
    """

    def __init__(self):
        self.handler = None
        self.float_draws = 0


RSOURCE = RandomSource()
_INST = random._inst  # pylint: disable=protected-access
_REAL_RANDBELOW = _INST._randbelow
_REAL_RANDOM = _INST.random
_REAL_CHOICES = _INST.choices


def _randbelow(n):
    if RSOURCE.handler is not None:
        return RSOURCE.handler(n)
    return _REAL_RANDBELOW(n)


def _random():
    if RSOURCE.handler is not None:
        RSOURCE.float_draws += 1
    return _REAL_RANDOM()


def _choices(population, weights=None, *, cum_weights=None, k=1):
    if RSOURCE.handler is None:
        return _REAL_CHOICES(population, weights, cum_weights=cum_weights, k=k)
    population = list(population)
    if cum_weights is not None:
        cum = list(cum_weights)
        weights = [b - a for a, b in zip([0] + cum, cum)]
    if weights is None:
        weights = [1] * len(population)
    weights = list(weights)
    if any(int(w) != w for w in weights):
        RSOURCE.float_draws += 1
        return _REAL_CHOICES(population, weights, k=k)
    res = []
    for _ in range(k):
        r = RSOURCE.handler(int(sum(weights)))
        for x, w in zip(population, weights):
            if r < w:
                res.append(x)
                break
            r -= w
    return res


_INST._randbelow = _randbelow
random.random = _random
random.choices = _choices

# set by monitors that want to control how verification strategies of the universes obtain
# the specification behind a verified class
SPEC_HOOK = None
# classes of the universes that, for now, cannot list their objects
UNLISTED = frozenset()

import logging  # noqa: E402

import logzero  # noqa: E402

logzero.loglevel(logging.CRITICAL)
logging.getLogger("logzero_default").setLevel(logging.CRITICAL)

# the size of the searcher is only logged: do not spend time on it
from pympler import asizeof as _asizeof_module  # noqa: E402

_asizeof_module.asizeof = lambda *args, **kwargs: 0

import comb_spec_searcher as css_module  # noqa: E402

assert os.path.abspath(css_module.__file__).startswith(os.path.abspath(REPO) + os.sep), (
    "library imported from the wrong place: " + css_module.__file__
)
logzero.loglevel(logging.CRITICAL)


def keywords(names, params, rng):
    """The values of the parameters as keyword arguments, which come in any order."""
    pairs = list(zip(names, params))
    rng.shuffle(pairs)
    return dict(pairs)
