"""D01 FIR filter."""
import cmath, math, random
from scipy.signal import remez
from amlib.dsp.fixedpointfirfilter import FixedPointFIRFilter
from dspkit import *

MC = [("MCFilt", "MCFiltF.cfg"), ("MCFilt", "MCFiltC.cfg")]
MC_THOROUGH = [("MCFilt", "MCFiltFT.cfg")]


def taps_of(dut, par):
    return [int(t) for t in dut.taps]


def build(par):
    return FixedPointFIRFilter(verbose=False, **par)


def run(par, n, seed, gate):
    rng = random.Random(seed)
    dut = build(par)
    bw, f = par["bitwidth"], par["fraction_width"]
    taps = taps_of(dut, par)
    sim = Sim(dut)
    ev = []
    mac = par.get("mac_loop", False)
    lat = len(taps) + 4
    data = stimulus(rng, bw, n)
    wait = 0
    for v in data:
        if mac:
            idle = lat - 1 + rng.choice([0, 0, 0, 1, 7])
            seqn = [(1, v)] + [(0, full(rng, bw)) for _ in range(idle)]
        else:
            seqn = [(0, full(rng, bw)) for _ in range(rng.choice([0, 0, 1, 3]) if gate else 0)] + [(1, v)]
        for en, x in seqn:
            o = sim.cycle([(dut.enable_in, en), (dut.signal_in, x)], dict(out=dut.signal_out))
            ev.append({"en": en, "in": x, "out": o["out"]})
    return [dict(spec="TSeqFilt" if mac else "TFilt", id=f"{par} seed={seed} gate={gate}",
                 cfg=dict(b=taps, a=[], n=1, bw=bw, f=f, lat=lat), ev=ev)]


def response(par):
    dut = build(par)
    f = par["fraction_width"]
    taps = taps_of(dut, par)
    fs, fc, n = par["samplerate"], par["cutoff_freq"], len(taps)
    low = par.get("filter_type", "lowpass") == "lowpass"
    if isinstance(fc, list):
        pb, sb = (fc if low else fc[::-1])
        mid = []
        plo, phi, shi = 80, 122, 4
        if par.get("weight"):
            # the ripples of the equiripple design with these weights
            t = remez(n, [0, fc[0] / fs, fc[1] / fs, .5], [1, 0] if low else [0, 1], par["weight"])
            h = lambda w: abs(sum(x * cmath.exp(-2j * math.pi * w * i) for i, x in enumerate(t)))
            one = [abs(h((pb + (0 if low else fs / 2 - pb) * i / 200 - (pb * i / 200 if low else 0)) / fs) - 1) for i in range(201)]
            nil = [h((sb + ((fs / 2 - sb) if low else -sb) * i / 200) / fs) for i in range(201)]
            plo, phi = math.floor(100 * (1 - max(one)) ** 2 - .5), math.ceil(100 * (1 + max(one)) ** 2 + .5)
            shi = math.ceil(100 * max(nil) ** 2 + .5)
    else:
        d = 1.75 * fs / n
        pb, sb = (fc - d, fc + d) if low else (fc + d, fc - d)
        mid = [(fc / fs, 17, 33)]
        plo, phi, shi = 92, 108, 1
    k = 6 if not par.get("weight") else 40
    pts = list(mid)
    for i in range(k + 1):
        if low:
            if pb > 0:
                pts.append((pb * i / k / fs, plo, phi))
            if sb < fs / 2:
                pts.append(((sb + (fs / 2 - sb) * i / k) / fs, 0, shi))
        else:
            if pb < fs / 2:
                pts.append(((pb + (fs / 2 - pb) * i / k) / fs, plo, phi))
            if sb > 0:
                pts.append((sb * i / k / fs, 0, shi))
    return [response_trace(f"response {par}", scaled(taps, f, 11), [], 11, pts)]


PARS = [
    dict(samplerate=336000),
    dict(samplerate=48000, cutoff_freq=12000, filter_order=16),
    dict(samplerate=48000, cutoff_freq=6000, filter_order=33, bitwidth=16, fraction_width=18),
    dict(samplerate=192000, cutoff_freq=20000, filter_order=24, bitwidth=12, fraction_width=12),
    dict(samplerate=48000, cutoff_freq=10000, filter_order=31, filter_type="highpass", bitwidth=12, fraction_width=16),
    dict(samplerate=100, cutoff_freq=10, filter_order=5, filter_type="highpass", bitwidth=8, fraction_width=8),
    dict(samplerate=96000, cutoff_freq=[15000, 24000], filter_order=24),
    dict(samplerate=96000, cutoff_freq=[20000, 30000], filter_order=31, bitwidth=14, fraction_width=15, filter_type="highpass"),
    dict(samplerate=96000, cutoff_freq=[10000, 20000], filter_order=32, weight=[1, 1], bitwidth=16, fraction_width=16),
    dict(samplerate=48000, cutoff_freq=[9000, 12000], filter_order=9, weight=[1, 12], bitwidth=12, fraction_width=16),
    dict(samplerate=48000, cutoff_freq=[9000, 12000], filter_order=8, weight=[12, 1], bitwidth=12, fraction_width=16),
    dict(samplerate=48000, cutoff_freq=[9000, 13000], filter_order=9, weight=[15, 1], bitwidth=12, fraction_width=16, filter_type="highpass"),
    dict(samplerate=48000, cutoff_freq=7000, filter_order=24, bitwidth=26, fraction_width=26),
    dict(samplerate=8, cutoff_freq=3, filter_order=2, bitwidth=8, fraction_width=9),
    dict(samplerate=8, cutoff_freq=2, filter_order=1, bitwidth=8, fraction_width=9),
]


def norm(p):
    return dict(dict(bitwidth=18, fraction_width=18, cutoff_freq=20000, filter_order=24), **p)


def jobs(tier, rng):
    more = tier == "thorough"
    for p in map(norm, PARS):
        if p["filter_order"] >= 16 or p.get("weight"):
            yield "response", dict(par=p)
        yield "run", dict(par=p, n=300 if not more else 3000, seed=rng.randrange(10**6), gate=True)
        yield "run", dict(par=p, n=150 if not more else 3000, seed=rng.randrange(10**6), gate=False)
        yield "run", dict(par=dict(p, mac_loop=True), n=60 if not more else 600, seed=rng.randrange(10**6), gate=True)
    for _ in range(4 if not more else 40):
        f = rng.randrange(8, 19)
        p = dict(samplerate=48000, cutoff_freq=rng.randrange(3000, 20000), filter_order=rng.randrange(3, 30),
                 fraction_width=f, bitwidth=rng.randrange(6, f + 1))
        if rng.random() < .4:
            p.update(filter_order=p["filter_order"] | 1, filter_type="highpass")
        yield "run", dict(par=dict(p, mac_loop=rng.random() < .5), n=60, seed=rng.randrange(10**6), gate=True)
    # long filters, wide samples
    for _ in range(2 if not more else 20):
        f = rng.randrange(12, 25)
        p = dict(samplerate=48000, cutoff_freq=rng.randrange(3000, 20000), filter_order=rng.choice([32, 64, rng.randrange(30, 100)]),
                 fraction_width=f, bitwidth=rng.randrange(6, f + 1))
        yield "run", dict(par=dict(p, mac_loop=rng.random() < .5), n=p["filter_order"] + 40, seed=rng.randrange(10**6), gate=False)
