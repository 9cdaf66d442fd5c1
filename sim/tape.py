"""The choice tape: every nondeterministic decision of a run is an integer drawn here.

A tape is either generated from one integer seed (per named stream: "w" workload, "s" schedule, "f" faults,
"t" trio task order) or replayed from recorded lists.  Value 0 is always the simplest choice, so an exhausted
replay stream yields the simplest continuation and shrinking means deleting / zeroing entries.
"""
from __future__ import annotations

import random


class Tape:
    def __init__(self, seed=None, data=None):
        self.seed = seed
        self.replay = data
        self.rec = {}
        self._rng = {}

    def draw(self, stream: str, n: int) -> int:
        if n <= 1:
            n = 1
        rec = self.rec.get(stream)
        if rec is None:
            rec = self.rec[stream] = []
        if self.replay is not None:
            src = self.replay.get(stream, ())
            i = len(rec)
            v = src[i] if i < len(src) else 0
            if v >= n:
                v = n - 1
        else:
            r = self._rng.get(stream)
            if r is None:
                r = self._rng[stream] = random.Random(f"{self.seed}/{stream}")
            v = int(r.random() * n)
        rec.append(v)
        return v


class Src:
    """Convenience drawing helpers over one stream."""

    def __init__(self, tape: Tape, stream: str):
        self.tape, self.stream = tape, stream

    def int(self, lo: int, hi: int) -> int:
        """lo..hi inclusive; lo is simplest"""
        return lo + self.tape.draw(self.stream, hi - lo + 1)

    def chance(self, p: float) -> bool:
        """True with probability p; False is simplest"""
        return self.tape.draw(self.stream, 1000) >= 1000 - int(p * 1000)

    def pick(self, seq):
        return seq[self.tape.draw(self.stream, len(seq))]

    def weighted(self, pairs):
        """pairs of (value, weight); the first is simplest"""
        tot = sum(w for _, w in pairs)
        v = self.tape.draw(self.stream, tot)
        for val, w in pairs:
            if v < w:
                return val
            v -= w
        raise AssertionError

    def small(self, hi: int) -> int:
        """0..hi, biased towards small"""
        v = self.tape.draw(self.stream, (hi + 1) * (hi + 1))
        # inverse of squares: large v rare
        k = 0
        r = v
        while k < hi and r >= 2 * (hi - k) + 1:
            r -= 2 * (hi - k) + 1
            k += 1
        return k

    def sample(self, seq, k):
        pool = list(seq)
        out = []
        for _ in range(min(k, len(pool))):
            out.append(pool.pop(self.tape.draw(self.stream, len(pool))))
        return out

    def shuffle(self, seq):
        """identity is simplest"""
        pool = list(seq)
        out = []
        while pool:
            out.append(pool.pop(self.tape.draw(self.stream, len(pool))))
        return out

    def bytes(self, n: int, kind: int | None = None) -> bytes:
        """n bytes, content derived from one draw (cheap for big sizes)."""
        k = self.tape.draw(self.stream, 6) if kind is None else kind
        s = self.tape.draw(self.stream, 1 << 16)
        if k == 0:
            return (b"%d:" % s + bytes(range(97, 123)) * (n // 26 + 1))[:n]
        if k == 1:
            return bytes([s & 255]) * n
        if k == 2:
            return (b"\r\n--b%d\r\n" % s * (n // 4 + 1))[:n]
        if k == 3:
            return (bytes((i * 31 + s) & 255 for i in range(min(n, 4096))) * (n // 4096 + 1))[:n]
        return random.Random(s).randbytes(n)

    def text(self, n: int) -> str:
        pool = "abcXYZ09 _-.~" + "éü" + "λж" + "漢" + "😀" + "\"'\\;=&%+<>/"
        return "".join(pool[self.tape.draw(self.stream, len(pool))] for _ in range(n))

    def token(self, lo=1, hi=6) -> str:
        n = self.int(lo, hi)
        return "".join("abcdefghijklmnopqrstuvwxyz0123456789"[self.tape.draw(self.stream, 36)] for _ in range(n))

    def split(self, data: bytes, max_parts: int = 6) -> list[bytes]:
        """Split into random consecutive parts, possibly empty ones."""
        n = self.small(max_parts - 1)
        mode = self.tape.draw(self.stream, 3) if n else 0
        if mode == 2 and 0 < len(data) <= 64:
            return [data[i:i + 1] for i in range(len(data))]
        cuts = sorted(self.tape.draw(self.stream, len(data) + 1) for _ in range(n))
        cuts = [0, *cuts, len(data)]
        return [data[a:b] for a, b in zip(cuts, cuts[1:])]
