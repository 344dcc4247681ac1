"""Large databases with a record (or more) for every prefix, made by numpy."""
import numpy as np


class Bulk:
    """p prefixes of `bits` bits, with 1 to `per` records each, sorted"""

    def __init__(self, hs, bits, p, per, seed):
        g = np.random.default_rng(seed)
        self.hs, self.bits = hs, bits
        rest = 32 - bits
        n = g.integers(1, per + 1, p) if per > 1 else np.ones(p, dtype=np.int64)
        pre = np.repeat(np.arange(p, dtype=np.uint64), n)
        low = g.integers(0, 1 << rest, len(pre), dtype=np.uint64)
        e = g.integers(0, 8, len(pre))           # ends of the prefixes' ranges
        low[e == 0] = 0
        low[e == 1] = (1 << rest) - 1
        top = (pre << np.uint64(rest)) | low
        nxt = g.integers(0, 2**32, len(pre), dtype=np.uint64)
        key = np.sort((top << np.uint64(32)) | nxt)
        key = key[np.concatenate(([True], key[1:] != key[:-1]))]
        self.key = key
        m = len(key)
        self.raw = np.zeros((m, hs + 4), dtype=np.uint8)
        self.raw[:, :8] = key.astype(">u8").view(np.uint8).reshape(m, 8)
        self.raw[:, 8:hs] = g.integers(0, 256, (m, hs - 8), dtype=np.uint8)
        self.raw[:, hs:] = g.integers(0, 2**31, m).astype("<i4").view(np.uint8).reshape(m, 4)

    def __len__(self):
        return len(self.key)

    def hash(self, i):
        return self.raw[i, :self.hs].tobytes()

    def count(self, i):
        return int(self.raw[i, self.hs:].view("<i4")[0])

    def find(self, h):
        """-> count or None"""
        i = int(np.searchsorted(self.key, np.uint64(int.from_bytes(h[:8], "big"))))
        return self.count(i) if i < len(self.key) and self.hash(i) == h else None

    def first(self, p):
        """index of the first record of prefix p"""
        return int(np.searchsorted(self.key, np.uint64(p << (64 - self.bits)))) if p < 1 << self.bits else len(self.key)

    def tofile(self, f):
        self.raw.tofile(f)
