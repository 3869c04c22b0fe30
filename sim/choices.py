"""The one source of decisions of a simulated run.

A run asks for integers in [0, n).  In search mode they come from a PRNG seeded by one integer; in
replay mode they come from a recorded list (0 when it is exhausted).  0 always means "the simplest
thing", so that lowering and deleting recorded choices simplifies the run."""

import random

TAPE = 1 << 19


def read_tape(tape):
    n = int.from_bytes(tape[0:8], "big")
    return [int.from_bytes(tape[8 * i: 8 * i + 8], "big") for i in range(1, n + 1)]


class Choices:
    def __init__(self, seed=None, replay=None):
        self.seed = seed
        self.rng = random.Random(seed) if replay is None else None
        self.replay = replay
        self.trace = []
        self.tape = None  # shared memory that outlives a crash of the process

    def draw(self, n):
        """Integer in [0, n)."""
        assert n >= 1
        if n == 1:
            return 0
        if n > 1 << 63:
            # one recorded choice has at most 64 bits
            return ((self.draw(((n - 1) >> 60) + 1) << 60) + self.draw(1 << 60)) % n
        if self.replay is None:
            v = self.rng.randrange(n)
        else:
            i = len(self.trace)
            v = self.replay[i] if i < len(self.replay) else 0
            if v >= n:
                v = v % n
        self.trace.append(v)
        if self.tape is not None and len(self.trace) < TAPE // 8:
            self.tape[8 * len(self.trace): 8 * len(self.trace) + 8] = v.to_bytes(8, "big")
            self.tape[0:8] = len(self.trace).to_bytes(8, "big")
        return v

    def chance(self, num, den=100):
        """True with probability num/den; the simplest choice is False."""
        if num <= 0:
            return False
        return self.draw(den) >= den - num

    def pick(self, seq):
        return seq[self.draw(len(seq))]

    def weighted(self, pairs):
        """Pick from (item, weight) pairs; the first item is the simplest."""
        total = sum(w for _, w in pairs)
        v = self.draw(total)
        for item, w in pairs:
            if v < w:
                return item
            v -= w
        raise AssertionError

    def subset(self, seq, num=50, den=100):
        return [x for x in seq if self.chance(num, den)]

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = i + self.draw(len(seq) - i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def seed64(self):
        return self.draw(1 << 62)
