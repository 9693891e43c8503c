"""D03 half band decimator."""
import random
from amlib.dsp.fixedpointhbfilter import FixedPointHBFilter
from dspkit import *

MC = [("MCHb", "MCHb.cfg")]


def build(par):
    return FixedPointHBFilter(verbose=False, **par)


def run(par, n, seed, gate):
    rng = random.Random(seed)
    dut = build(par)
    bw, f, mac = par["bitwidth"], par["fraction_width"], par.get("mac_loop", False)
    taps = [int(t) for t in dut.taps]
    sim = Sim(dut)
    ev = []
    lat = len(taps) // 4 + 6 if mac else 0
    for v in stimulus(rng, bw, n):
        idle = lat - 1 + rng.choice([0, 0, 1, 7]) if mac else rng.choice([0, 0, 1, 3]) if gate else 0
        s = [(0, full(rng, bw)) for _ in range(idle)]
        for en, x in ([(1, v)] + s if mac else s + [(1, v)]):
            o = sim.cycle([(dut.strobe_in, en), (dut.signal_in, x)], dict(out=dut.signal_out, so=dut.strobe_out))
            ev.append({"en": en, "in": x, "out": o["out"], "so": o["so"]})
    return [dict(spec="THb", id=f"{par} seed={seed} gate={gate}", cfg=dict(b=taps, bw=bw, f=f, lat=lat), ev=ev)]


RIPPLE = {7: 23, 11: 15, 15: 10, 19: 7, 23: 5, 31: 4, 43: 3}       # percent of amplitude


def response(par):
    """The taps that are used, with 1/2 at the centre."""
    dut = build(par)
    f, n = par["fraction_width"], par["filter_order"]
    taps = scaled([int(t) for t in dut.taps], f, 11)
    h = [t if i % 2 == 0 else 0 for i, t in enumerate(taps)]
    h[n // 2] = 1024
    r = RIPPLE[n] / 100
    pts = [(.22 * i / 8, int(100 * (1 - r) ** 2), round(100 * (1 + r) ** 2)) for i in range(9)]
    pts += [(.28 + .22 * i / 8, 0, max(1, round(100 * r * r + .5))) for i in range(9)]
    pts.append((.25, 22, 28))
    return [response_trace(f"response {par}", h, [], 11, pts)]


def norm(p):
    return dict(dict(bitwidth=18, fraction_width=18, filter_order=19), **p)


PARS = [{}, dict(filter_order=7), dict(filter_order=11, bitwidth=8, fraction_width=12),
        dict(filter_order=15, bitwidth=16, fraction_width=18), dict(filter_order=31, bitwidth=12, fraction_width=12),
        dict(filter_order=43, bitwidth=10, fraction_width=16), dict(filter_order=23, bitwidth=14, fraction_width=17)]


def jobs(tier, rng):
    k = 10 if tier == "thorough" else 1
    for p in map(norm, PARS):
        yield "response", dict(par=p)
        yield "run", dict(par=p, n=250 * k, seed=rng.randrange(10**6), gate=True)
        yield "run", dict(par=p, n=200 * k, seed=rng.randrange(10**6), gate=False)
        yield "run", dict(par=dict(p, mac_loop=True), n=80 * k, seed=rng.randrange(10**6), gate=True)
    for _ in range(k):
        f = rng.randrange(10, 25)
        p = dict(filter_order=4 * rng.randrange(1, 17) + 3, fraction_width=f, bitwidth=rng.randrange(6, f + 1))
        yield "run", dict(par=dict(p, mac_loop=rng.random() < .6), n=60 + p["filter_order"], seed=rng.randrange(10**6), gate=False)
        p = dict(filter_order=rng.choice([7, 11, 15]), fraction_width=24, bitwidth=rng.randrange(19, 25))
        yield "run", dict(par=dict(p, mac_loop=rng.random() < .6), n=80, seed=rng.randrange(10**6), gate=False)
