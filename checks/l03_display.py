"""L03 number displays: seven-segment digits and the bit bar."""
import random
from rtlsim import Sim
from amlib.io.led import NumberToSevenSegmentHex, NumberToBitBar, NibbleToSevenSegmentHex

MC = [("MCWiring", "MCWiring.cfg")]


def seg(width, reg, cycles, seed):
    rng = random.Random(seed)
    d = NumberToSevenSegmentHex(width, register=bool(reg))
    sim = Sim(d)
    ev = []
    n = width // 4
    for _ in range(cycles):
        v, p = [rng.getrandbits(4) for _ in range(n)], [rng.getrandbits(1) for _ in range(n)]
        o = sim.cycle([(d.number_in, sum(x << 4 * i for i, x in enumerate(v))), (d.dots_in, sum(x << i for i, x in enumerate(p)))], dict(o=d.seven_segment_out))["o"]
        b = [(o >> 8 * i) & 255 for i in range(n)]
        ev.append(dict(d=v, p=p, seg=[[(x >> (6 - j)) & 1 for j in range(7)] for x in b], dot=[x >> 7 for x in b]))
    return [dict(spec="TSeg", cfg=dict(reg=reg), ev=ev, id=f"seven segment width={width} reg={reg} seed={seed}")]


def bar(mn, mx, w, seed):
    rng = random.Random(seed)
    d = NumberToBitBar(mn, mx, w)
    sim = Sim(d)
    ev = []
    span = mx - mn
    top = (1 << len(d.value_in)) - 1
    if top < mx:
        return [dict(spec="TBar", cfg={}, ev=[], id=f"bit bar {mn}..{mx} w={w}", bad="the input cannot hold the maximum, nothing gives a full bar")]
    vals = list(range(mx + 2)) if mx < 700 else [rng.randrange(top + 1) for _ in range(500)] + [mn, mn + 1, mx - 1, mx]
    vals += [mn + span * k // (w - 2) + j for k in range(w) for j in (-1, 0, 1)] + [0, mn, mx]
    vals += [rng.randrange(top + 1) for _ in range(100)]
    for v in vals + [0, 0]:
        v = max(0, min(v, top))
        o = sim.cycle([(d.value_in, v)], dict(o=d.bitbar_out))["o"]
        ev.append(dict(v=v, bar=[(o >> i) & 1 for i in range(w)]))
    return [dict(spec="TBar", cfg=dict(min=mn, max=mx, w=w), ev=ev, id=f"bit bar {mn}..{mx} w={w}")]


def jobs(tier, rng):
    for _ in range(1 if tier == "quick" else 10):
        for width in [4, 8, 12, 16, 28, 32, 64]:
            for reg in (0, 1):
                yield "seg", dict(width=width, reg=reg, cycles=300, seed=rng.getrandbits(30))
        for mn, mx, w in [(16, 130, 8), (0, 255, 8), (0, 256, 16), (3, 11, 8), (0, 8, 4), (1, 100, 3), (0, 63, 6), (5, 37, 5), (0, 65535, 16), (1000, 30000, 24), (0, 200000, 10), (70000, 1 << 20, 12), (5, (1 << 24) + 5, 32)]:
            yield "bar", dict(mn=mn, mx=mx, w=w, seed=rng.getrandbits(30))
        for _ in range(4):
            mn, w = rng.randrange(50), rng.randrange(3, 20)
            yield "bar", dict(mn=mn, mx=mn + w + rng.randrange(400), w=w, seed=rng.getrandbits(30))
