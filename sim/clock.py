"""Simulated clock and random source: the only ones the code under test sees.

install() must run before Cheetah is imported, because Cheetah (and the code it
generates) binds time.time and random functions by name.
"""
import os
import random
import time

real_time = time.time
real_monotonic = time.monotonic
real_sleep = time.sleep
_real_localtime = time.localtime
_real_gmtime = time.gmtime
_real_asctime = time.asctime
_real_ctime = time.ctime
_real_strftime = time.strftime
real_urandom = os.urandom

EPOCH = 1700000000.0


class Clock(object):
    def __init__(self):
        self.reset()

    def reset(self, start=EPOCH):
        self.now = start
        self.start = start
        self.covered = 0.0        # simulated seconds moved, forward and back
        self.reads = 0
        self.source = None        # optional adversarial source: f(now) -> value
        self.on_sleep = None

    def advance(self, d):
        self.now += d
        self.covered += abs(d)

    def read(self):
        self.reads += 1
        if self.source is not None:
            return self.source(self.now)
        return self.now


CLOCK = Clock()


def _time():
    return CLOCK.read()


def _time_ns():
    return int(CLOCK.read() * 1e9)


def _monotonic():
    return CLOCK.read() - EPOCH + 1000.0


def _sleep(d):
    CLOCK.advance(d)
    if CLOCK.on_sleep is not None:
        CLOCK.on_sleep(d)


def _arg(f, pos):
    def wrapper(*a):
        if len(a) <= pos or a[pos] is None:
            a = tuple(a[:pos]) + (CLOCK.read(),)
        return f(*a)
    return wrapper


def _asctime(*a):
    return _real_asctime(*(a or (_real_localtime(CLOCK.read()),)))


def _strftime(fmt, *a):
    return _real_strftime(fmt, *(a or (_real_localtime(CLOCK.read()),)))


class RandomSource(object):
    """Seeded generator behind random.*; 'values' mode returns a scripted,
    possibly repeating sequence reduced into the requested range."""

    def __init__(self):
        self.rng = random.Random(0)
        self.script = None
        self.pos = 0
        self.draws = 0

    def reset(self, seed=0, script=None):
        self.rng = random.Random(seed)
        self.script = script
        self.pos = 0
        self.draws = 0

    def fraction(self):
        self.draws += 1
        if self.script is not None and self.pos < len(self.script):
            v = self.script[self.pos]
            self.pos += 1
            return v
        return self.rng.random()


RANDOM = RandomSource()


def _randrange(start, stop=None, step=1):
    if stop is None:
        start, stop = 0, start
    n = (stop - start + step - (1 if step > 0 else -1)) // step
    if n <= 0:
        raise ValueError('empty range in randrange')
    return start + step * min(int(RANDOM.fraction() * n), n - 1)


def _randint(a, b):
    return _randrange(a, b + 1)


def _random():
    return min(RANDOM.fraction(), 1 - 2 ** -53)


def _choice(seq):
    return seq[_randrange(len(seq))]


def _uniform(a, b):
    return a + (b - a) * _random()


def _getrandbits(k):
    v = 0
    for _ in range((k + 15) // 16):
        v = (v << 16) | _randrange(65536)
    return v & ((1 << k) - 1)


def _urandom(n):
    return bytes(_randrange(256) for _ in range(n))


def _shuffle(x):
    for i in reversed(range(1, len(x))):
        j = _randrange(i + 1)
        x[i], x[j] = x[j], x[i]


def _sample(population, k):
    pool = list(population)
    _shuffle(pool)
    return pool[:k]


def install():
    time.time = _time
    time.time_ns = _time_ns
    time.monotonic = _monotonic
    time.perf_counter = _monotonic
    time.sleep = _sleep
    time.localtime = _arg(_real_localtime, 0)
    time.gmtime = _arg(_real_gmtime, 0)
    time.asctime = _asctime
    time.ctime = _arg(_real_ctime, 0)
    time.strftime = _strftime
    random.randrange = _randrange
    random.randint = _randint
    random.random = _random
    random.choice = _choice
    random.uniform = _uniform
    random.getrandbits = _getrandbits
    random.shuffle = _shuffle
    random.sample = _sample
    os.urandom = _urandom
