"""One integer decides everything: the only source of choices in the simulator."""
import hashlib
import random


def derive(*parts):
    h = hashlib.sha256(":".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


class R(random.Random):
    """random.Random with a few helpers. Never seeded from anything but an int."""

    def p(self, prob):
        return self.random() < prob

    def num(self, lo, hi, nd=3):
        return round(self.uniform(lo, hi), nd)

    def pick(self, seq):
        return seq[self.randrange(len(seq))]

    def some(self, seq, lo=0, hi=None):
        seq = list(seq)
        hi = len(seq) if hi is None else min(hi, len(seq))
        lo = min(lo, hi)
        return self.sample(seq, self.randint(lo, hi))

    def weighted(self, table):
        """table: dict name -> weight"""
        names = list(table)
        return self.choices(names, [table[n] for n in names])[0]


def mix(*ints):
    """splitmix-style hash of integers -> float in [0, 1)."""
    z = 0x9E3779B97F4A7C15
    for i in ints:
        z = (z ^ (int(i) & 0xFFFFFFFFFFFFFFFF)) * 0xBF58476D1CE4E5B9 & 0xFFFFFFFFFFFFFFFF
        z ^= z >> 27
        z = z * 0x94D049BB133111EB & 0xFFFFFFFFFFFFFFFF
        z ^= z >> 31
    return (z >> 11) / float(1 << 53)
