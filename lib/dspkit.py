"""Shared by the checks of the signal processing blocks."""
import math, random
from rtlsim import Sim


def full(rng, bw):
    """Samples with weight on the corners of the range."""
    hi = (1 << (bw - 1)) - 1
    k = rng.randrange(8)
    if k == 0:
        return hi
    if k == 1:
        return -hi - 1
    if k == 2:
        return rng.choice([0, 1, -1])
    return rng.randrange(-hi - 1, hi + 1)


def stimulus(rng, bw, n):
    """Sample sequences: impulses, steps, alternation, random."""
    hi = (1 << (bw - 1)) - 1
    out = []
    while len(out) < n:
        k = rng.randrange(5)
        m = rng.randrange(3, 40)
        if k == 0:
            out += [rng.choice([hi, -hi - 1, 1])] + [0] * m
        elif k == 1:
            out += [rng.choice([hi, -hi - 1])] * m
        elif k == 2:
            out += [hi, -hi - 1] * (m // 2)
        else:
            out += [full(rng, bw) for _ in range(m)]
    return out[:n]


def response_trace(tid, b, a, p, points):
    """points: (frequency / samplerate, low %, high %)."""
    n = max(len(b), len(a) + 1)
    ev = [dict(cs=[round(256 * math.cos(2 * math.pi * w * i)) for i in range(n)],
               sn=[round(256 * math.sin(2 * math.pi * w * i)) for i in range(n)],
               lo=lo, hi=hi) for w, lo, hi in points]
    return dict(spec="TResp", id=tid, cfg=dict(b=b, a=a, p=p), ev=ev)


def scaled(taps, f, p):
    """Taps with f fraction bits, rounded to p."""
    if p >= f:
        return [t << (p - f) for t in taps]
    return [(t + (1 << (f - p - 1))) >> (f - p) for t in taps]
