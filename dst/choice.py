"""The single source of nondeterminism of a simulated run.

Every decision (workload, schedule, delay, fault, random number) is one
``draw``: an integer in ``[0, n)``.  In exploration the integers come from a
PRNG seeded with the run's seed and are recorded; in replay they come from a
recorded list, and 0 (the simplest value) is used once the list is exhausted.
"""
import hashlib
from random import Random as _Random


class Choices:

    def __init__(self, seed=None, replay=None, limit=400_000):
        self._rng = None if replay is not None else _Random(
            int.from_bytes(
                hashlib.sha256(('%r' % (seed,)).encode()).digest()[:16], 'big'))
        self._replay = replay
        self.values = []
        self.labels = []
        self.limit = limit

    def draw(self, label, n):
        """An integer in [0, n)."""
        if n <= 1:
            return 0
        i = len(self.values)
        if i >= self.limit:
            raise RuntimeError('too many choices in one run')
        if self._replay is None:
            v = self._rng.randrange(n)
        elif i < len(self._replay):
            v = self._replay[i]
            if v >= n:
                v = n - 1
        else:
            v = 0
        self.values.append(v)
        self.labels.append((label, n))
        return v

    def int(self, label, lo, hi):
        return lo + self.draw(label, hi - lo + 1)

    def chance(self, label, num, den):
        """True with probability num/den; 0 (simplest) means False."""
        return self.draw(label, den) >= den - num

    def pick(self, label, seq):
        return seq[self.draw(label, len(seq))]

    def weighted(self, label, pairs):
        """pairs: [(value, weight)]; the first one is the simplest."""
        tot = sum(w for _, w in pairs)
        r = self.draw(label, tot)
        for v, w in pairs:
            if r < w:
                return v
            r -= w
        raise AssertionError

    def seed(self, label='seed'):
        """A seed for the code under test; zero and large ones, too."""
        k = self.draw(label + '-kind', 10)
        v = self.draw(label, 2**16)
        return 0 if k == 8 else 2**32 - 1 - v if k == 9 else v

    def shuffle(self, label, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            j = i - self.draw(label, i + 1)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def subset(self, label, seq, num=1, den=2):
        return [x for x in seq if self.chance(label, num, den)]
