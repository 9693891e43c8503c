"""D02 IIR filter."""
import math, random
from amlib.dsp.fixedpointiirfilter import FixedPointIIRFilter
from dspkit import *

MC = [("MCFilt", "MCFiltI.cfg")]
MC_THOROUGH = [("MCFilt", "MCFiltIT.cfg")]


def build(par):
    return FixedPointIIRFilter(verbose=False, **par)


def run(par, n, seed, gate):
    rng = random.Random(seed)
    dut = build(par)
    bw, f = par["bitwidth"], par["fraction_width"]
    b, a = [int(t) for t in dut.b], [int(t) for t in dut.a][1:]
    sim = Sim(dut)
    ev = []
    for v in stimulus(rng, bw, n):
        for en, x in [(0, full(rng, bw)) for _ in range(rng.choice([0, 0, 1, 3]) if gate else 0)] + [(1, v)]:
            o = sim.cycle([(dut.enable_in, en), (dut.signal_in, x)], dict(out=dut.signal_out))
            ev.append({"en": en, "in": x, "out": o["out"]})
    return [dict(spec="TFilt", id=f"{par} seed={seed} gate={gate}", cfg=dict(b=b, a=a, n=1, bw=bw, f=f), ev=ev)]


def cheby_power(n, w, wc, high):
    x = math.tan(math.pi * w) / math.tan(math.pi * wc)
    if high:
        x = 1 / x if x else math.inf
    if x == math.inf:
        return 0.0
    t = math.cos(n * math.acos(x)) if x <= 1 else math.cosh(n * math.acosh(x))
    return 1 / (1 + (10 ** 0.1 - 1) * t * t)


def response(par):
    dut = build(par)
    f = par["fraction_width"]
    b, a = [int(t) for t in dut.b], [int(t) for t in dut.a]
    n, fs, fc = par["filter_order"], par["samplerate"], par["cutoff_freq"]
    p = {1: 11, 2: 10, 3: 9, 4: 8}[n]
    # the power is evaluated with p fraction bits: allow for the rounding
    pts = []
    for i in range(25):
        w = i / 50
        P = 100 * cheby_power(n, w, fc / fs, par.get("filter_type") == "highpass")
        tol = 5 + .05 * P
        pts.append((w, max(0, math.floor(P - tol)), math.ceil(P + tol)))
    pts.append((fc / fs, 76 - 2 * n, 83 + 2 * n))
    ev = response_trace(f"response {par}", scaled(b, f, p), scaled(a, f, p)[1:], p, pts)
    one = 1 << f
    return [ev] if a[0] == one else [dict(ev, bad=f"leading coefficient is {a[0]}, not {one}")]


PARS = [
    dict(samplerate=336000),
    dict(samplerate=48000, cutoff_freq=8000, filter_order=1),
    dict(samplerate=48000, cutoff_freq=12000, filter_order=2, bitwidth=16, fraction_width=16),
    dict(samplerate=48000, cutoff_freq=9000, filter_order=3, bitwidth=16, fraction_width=18),
    dict(samplerate=48000, cutoff_freq=15000, filter_order=4, bitwidth=12, fraction_width=18),
    dict(samplerate=48000, cutoff_freq=10000, filter_order=2, filter_type="highpass", bitwidth=8, fraction_width=14),
    dict(samplerate=48000, cutoff_freq=14000, filter_order=3, filter_type="highpass", bitwidth=10, fraction_width=12),
]
RESP = [0, 1, 2, 3, 4, 5, 6]


def norm(p):
    return dict(dict(bitwidth=18, fraction_width=18, cutoff_freq=20000, filter_order=2), **p)


def jobs(tier, rng):
    more = tier == "thorough"
    for i, p in enumerate(map(norm, PARS)):
        if i in RESP:
            yield "response", dict(par=p)
        yield "run", dict(par=p, n=300 if not more else 3000, seed=rng.randrange(10**6), gate=True)
        yield "run", dict(par=p, n=200 if not more else 3000, seed=rng.randrange(10**6), gate=False)
    for _ in range(6 if not more else 60):
        f = rng.randrange(8, 19)
        p = dict(samplerate=48000, cutoff_freq=rng.randrange(3000, 20000), filter_order=rng.randrange(1, 5),
                 fraction_width=f, bitwidth=rng.randrange(6, f + 1), filter_type=rng.choice(["lowpass", "highpass"]))
        yield "run", dict(par=p, n=150, seed=rng.randrange(10**6), gate=True)
    # high orders: recursive coefficients of several units, long histories
    for _ in range(2 if not more else 20):
        f = rng.randrange(14, 23)
        p = dict(samplerate=48000, cutoff_freq=rng.randrange(3500, 9000), filter_order=rng.randrange(5, 8),
                 fraction_width=f, bitwidth=rng.randrange(10, 15))
        yield "run", dict(par=p, n=150, seed=rng.randrange(10**6), gate=rng.random() < .5)
    for _ in range(1 if not more else 20):
        p = dict(samplerate=48000, cutoff_freq=rng.randrange(6000, 12000), filter_order=rng.randrange(8, 11),
                 fraction_width=rng.randrange(16, 21), bitwidth=rng.randrange(8, 13), filter_type=rng.choice(["lowpass", "highpass"]))
        yield "run", dict(par=p, n=150, seed=rng.randrange(10**6), gate=rng.random() < .5)
        p = dict(samplerate=48000, cutoff_freq=rng.randrange(6000, 20000), filter_order=rng.randrange(1, 4),
                 fraction_width=24, bitwidth=rng.randrange(19, 25), filter_type=rng.choice(["lowpass", "highpass"]))
        yield "run", dict(par=p, n=150, seed=rng.randrange(10**6), gate=rng.random() < .5)
