"""T04 clock divider and dividing counter."""
import random
from rtlsim import Sim
from amlib.utils import SimpleClockDivider, DividingCounter

MC = [("MCDividers", "MCDividers.cfg")]


def clk(divisor, pol, cycles, seed):
    rng = random.Random(seed)
    d = SimpleClockDivider(divisor, clock_polarity=pol)
    sim = Sim(d)
    ev, en = [], 0
    for _ in range(cycles):
        if rng.random() < rng.choice([.01, .1]):
            en ^= 1
        o = sim.cycle([(d.clock_enable_in, en)], dict(clk=d.clock_out))
        ev.append(dict(en=en, clk=o["clk"]))
    return [dict(spec="TClkDiv", cfg=dict(half=divisor // 2, pol=pol), ev=ev, id=f"clkdiv {divisor} pol={pol} seed={seed}")]


def cnt(divisor, width, cycles, seed):
    rng = random.Random(seed)
    d = DividingCounter(divisor, width)
    sim = Sim(d)
    ev, pa, pr = [], 1, 0
    for c in range(cycles):
        if c % 100 == 0:
            pa, pr = rng.choice([1, 1, .9, .3]), rng.choice([0, 0, 0, .01, .1])
        i = dict(act=int(rng.random() < pa), rst=int(rng.random() < pr))
        o = sim.cycle([(d.active_in, i["act"]), (d.reset_in, i["rst"])],
                      dict(cnt=d.counter_out, div=d.divided_counter_out, dv=d.dividable_out))
        ev.append({**i, **o})
    return [dict(spec="TDivCnt", cfg=dict(div=divisor, wrap=1 << width), ev=ev, id=f"divcnt div={divisor} width={width} seed={seed}")]


def jobs(tier, rng):
    k = 1 if tier == "quick" else 10
    for _ in range(k):
        for div in [2, 4, 6, 8, 10, 12, 16, 18, 30, 32, 34, 64, 66, rng.choice([128, 130, 200]), rng.choice([256, 258, 400]), rng.choice([512, 514, 1000])]:
            for pol in (0, 1):
                yield "clk", dict(divisor=div, pol=pol, cycles=700 + (10 if div < 100 else 5) * div, seed=rng.getrandbits(30))
        for div, width in [(1, 3), (2, 3), (3, 2), (3, 3), (4, 4), (5, 3), (5, 5), (7, 5), (8, 5), (9, 5), (10, 6), (16, 7), (17, 8), (4, 3), (8, 4), (4, 2), (2, 2), (2, 1), (8, 3), (9, 3), (16, 5), (3, 8), (25, 8), (rng.choice([100, 128, 129]), 9), (rng.choice([255, 256, 257, 300]), 10)]:
            yield "cnt", dict(divisor=div, width=width, cycles=1500 + 3 * (1 << width), seed=rng.getrandbits(30))
