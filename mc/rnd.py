# -*- coding: utf-8 -*-
"""Control over the library's only source of nondeterminism: the module `random`.

The explorer replaces the generator underneath random.random/uniform/choice/... by a *scripted environment*.  Every draw
is answered from a fixed generic sequence (a low-discrepancy sequence with irrational step, selected by `variant`), except
where a check schedules a deviation (see `aim`): an answer that makes a probe ray pass exactly through a given vertex.
Checks enumerate variants and deviations; within one variant a run is a pure function of the case.
"""
import random
import math

LIMIT = 200000          # draws per case: more means that the library retries forever


class Exhausted(Exception):
    pass


class Env(object):
    def __init__(self):
        self.reset()

    def reset(self, variant=0):
        self.n = 0
        self.variant = variant
        self.uniform_hook = None

    def value(self):
        self.n += 1
        if self.n > LIMIT:
            raise Exhausted('more than %d random numbers were drawn' % LIMIT)
        # Kronecker sequences; every variant uses another irrational pair, odd and even draws are independent
        a = (0.6180339887498949, 0.4142135623730951, 0.7320508075688772, 0.23606797749979, 0.3166247903554,
             0.6055512754639891, 0.1231056256176606, 0.35889894354067)
        k = (2 * self.variant + (self.n % 2)) % len(a)
        v = (0.137 + 0.211 * self.variant + ((self.n + 1) // 2) * a[k] + 0.0917 * (self.n % 2)) % 1.0
        return 0.02 + 0.96 * v


ENV = Env()


def reset(variant=0):
    ENV.reset(variant)


def install():
    def _random(self=None):
        return ENV.value()

    def _getrandbits(self, k=None):
        if k is None:
            k = self
        return int(ENV.value() * (1 << k)) if k < 50 else int(ENV.value() * (1 << 50)) << (k - 50)

    _uniform = lambda a, b: (ENV.uniform_hook or plain)(a, b)

    random.Random.random = _random
    random.Random.getrandbits = _getrandbits
    random.Random.uniform = lambda self, a, b: _uniform(a, b)
    random.Random.seed = lambda self, *a, **k: None
    inst = random._inst
    random.random = inst.random
    random.uniform = inst.uniform
    random.getrandbits = inst.getrandbits
    random.seed = inst.seed
    for name in ('choice', 'randrange', 'randint', 'shuffle', 'sample', 'gauss', 'triangular', 'betavariate',
                 'normalvariate', 'choices', 'expovariate', 'vonmisesvariate'):
        if hasattr(inst, name):
            setattr(random, name, getattr(inst, name))


def plain(a, b):
    return a + (b - a) * ENV.value()


class Aim(object):
    """Deviation: the probes whose number is in `which` (0, 1, 2 ... in drawing order) are answered so that the
    segment from p to the drawn point runs exactly through vertex v (if such an answer lies in the offered range)."""

    def __init__(self, p, v, which):
        self.p, self.v, self.which = p, v, which
        self.calls = 0
        self.done = 0
        self.x = None

    def __call__(self, a, b):
        k, half = divmod(self.calls, 2)
        self.calls += 1
        if k not in self.which:
            return plain(a, b)
        dx, dy = self.v[0] - self.p[0], self.v[1] - self.p[1]
        if half == 0:
            self.x = plain(a, b)
            if dx == 0 and a <= self.p[0] <= b:
                self.x = self.p[0]
            return self.x
        if dx:
            y = self.p[1] + dy * (self.x - self.p[0]) / dx
            lo, hi = min(a, b), max(a, b)
            if lo <= y <= hi:
                self.done += 1
                return y
            # try from the other side: remember nothing, stay generic
        return plain(a, b)


def aim(p, v, which):
    ENV.uniform_hook = Aim(p, v, which)
    return ENV.uniform_hook


def unaim():
    ENV.uniform_hook = None
