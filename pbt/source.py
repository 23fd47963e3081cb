"""Sources of choices: the generators of gen.py are written once against this
interface and driven by Hypothesis (shrinking) or by a seeded PRNG (volume)."""

import random

from hypothesis import strategies as st

_POW = [0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 32767, 32768, 65535,
        65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, -1, -2, -32768, -(1 << 31)]


class RandSource:
    fast = True

    def __init__(self, key):
        self.r = random.Random(key)

    def int(self, lo, hi):
        r = self.r
        if hi - lo > 16 and r.random() < 0.3:
            v = r.choice(_POW) if r.random() < 0.6 else r.choice((lo, hi, lo + 1, hi - 1))
            if lo <= v <= hi:
                return v
        if hi - lo > 1 << 16 and r.random() < 0.3:     # all magnitudes
            v = r.getrandbits(r.randint(1, (hi - lo).bit_length()))
            return min(lo + v, hi)
        return r.randint(lo, hi)

    def pick(self, seq):
        return seq[self.r.randrange(len(seq))]

    def shuffle(self, seq):
        seq = list(seq)
        self.r.shuffle(seq)
        return seq

    def flag(self, p=0.5):
        return self.r.random() < p

    def bytes(self, lo, hi):
        n = self.size(lo, hi)
        if n and self.r.random() < 0.2:
            return bytes(self.r.choice((0, 0, 0xFF, 0x20, 0x41)) for _ in range(n))
        return self.r.randbytes(n)

    def size(self, lo, hi):
        """A count, usually small."""
        r = self.r
        if hi - lo <= 2 or r.random() < 0.15:
            return r.randint(lo, hi)
        return min(hi, lo + int(r.expovariate(1.0) * max(1.0, min(hi - lo, 40) / 4)))


class HypSource:
    fast = False

    def __init__(self, draw):
        self.draw = draw

    def shuffle(self, seq):
        return list(self.draw(st.permutations(list(seq)))) if len(seq) > 1 else list(seq)

    def int(self, lo, hi):
        return self.draw(st.integers(lo, hi))

    def pick(self, seq):
        return self.draw(st.sampled_from(list(seq)))

    def flag(self, p=0.5):
        return self.draw(st.integers(0, 99)) >= 100 - int(p * 100)

    def bytes(self, lo, hi):
        return self.draw(st.binary(min_size=lo, max_size=hi))

    def size(self, lo, hi):
        return self.draw(st.integers(lo, min(hi, lo + 24)))
