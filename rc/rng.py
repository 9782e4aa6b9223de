"""Replacement of the module-level generator of `random` by one whose outcomes are legal values
that sit at the boundaries of the unit interval with a chosen probability.

Only values that a uniform generator can really return are produced, so every behaviour observed is
a behaviour of the code under some random stream.  Exactly 0 is not used: events of probability
zero are not part of any property.
"""
import os
import random

_Base = random.Random

EDGES = (1e-9, 1e-6, 1e-3, 0.5 - 1e-9, 0.5 + 1e-9, 1 - 1e-3, 1 - 1e-6, 1 - 1e-9)


class Runaway(Exception):
    """too many random draws in one case"""


class AdvRandom(_Base):
    def __init__(self, x=None):
        self.p = 0.0
        self.n = 0
        self.limit = 1 << 62
        self._aux = _Base(0)
        _Base.__init__(self, x)

    def seed(self, a=None, version=2):
        aux = getattr(self, "_aux", None)
        if aux is not None:
            aux.seed(repr(a))
        _Base.seed(self, a, version)

    def random(self):
        self.n += 1
        if self.n > self.limit:
            raise Runaway("more than %d random draws" % self.limit)
        r = _Base.random(self)
        if self.p and self._aux.random() < self.p:
            return self._aux.choice(EDGES)
        return r


INST = AdvRandom(0)


def install():
    for name in dir(INST):
        if name.startswith("_"):
            continue
        if name in ("p", "n", "limit"):
            continue
        if hasattr(random, name) and callable(getattr(INST, name)):
            setattr(random, name, getattr(INST, name))
    # like the module-level generator, reseeded in forked processes
    os.register_at_fork(after_in_child=INST.seed)


def reset(seed, p=0.0, limit=20_000_000):
    INST.p = 0.0
    INST.seed(seed)
    INST._aux.seed("aux%r" % seed)
    INST.n = 0
    INST.limit = limit
    INST.p = p
