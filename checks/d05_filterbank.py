"""D05 filter bank: a chain of equal filters."""
import random
from amlib.dsp.filterbank import Filterbank
from amlib.dsp.fixedpointfirfilter import FixedPointFIRFilter
from amlib.dsp.fixedpointiirfilter import FixedPointIIRFilter
from dspkit import *

MC = [("MCFilt", "MCFiltC.cfg")]


def run(inst, par, n, seed, gate):
    rng = random.Random(seed)
    dut = Filterbank(inst, verbose=False, **par)
    bw, f = par["bitwidth"], par["fraction_width"]
    one = {k: v for k, v in par.items() if k != "filter_structure"}
    if par["filter_structure"] == "iir":                 # a single filter of the same parameters (D02)
        ref = FixedPointIIRFilter(verbose=False, **one)
        b, a = [int(t) for t in ref.b], [int(t) for t in ref.a][1:]
    else:
        ref = FixedPointFIRFilter(verbose=False, **one)
        b, a = [int(t) for t in ref.taps], []
    sim = Sim(dut)
    ev = []
    for v in stimulus(rng, bw, n):
        for en, x in [(0, full(rng, bw)) for _ in range(rng.choice([0, 0, 1, 3]) if gate else 0)] + [(1, v)]:
            o = sim.cycle([(dut.enable_in, en), (dut.signal_in, x)], dict(out=dut.signal_out))
            ev.append({"en": en, "in": x, "out": o["out"]})
    return [dict(spec="TFilt", id=f"{inst}x {par} seed={seed} gate={gate}", cfg=dict(b=b, a=a, n=inst, bw=bw, f=f), ev=ev)]


PARS = [
    (1, dict(samplerate=336000)),
    (3, dict(samplerate=336000, filter_structure="fir")),
    (2, dict(samplerate=48000, cutoff_freq=12000, filter_order=8, bitwidth=12, fraction_width=16, filter_structure="fir")),
    (4, dict(samplerate=48000, cutoff_freq=9000, filter_order=5, filter_type="highpass", bitwidth=16, fraction_width=16)),
    (1, dict(samplerate=336000, filter_structure="iir")),
    (2, dict(samplerate=48000, cutoff_freq=12000, filter_structure="iir", filter_order=3)),
    (3, dict(samplerate=48000, cutoff_freq=14000, filter_structure="iir", filter_order=1, filter_type="highpass",
             bitwidth=10, fraction_width=14)),
]


def jobs(tier, rng):
    k = 8 if tier == "thorough" else 1
    for inst, p in PARS:
        p = dict(dict(bitwidth=18, fraction_width=18, cutoff_freq=20000, filter_order=2, filter_structure="fir"), **p)
        for gate in (False, True):
            yield "run", dict(inst=inst, par=p, n=200 * k, seed=rng.randrange(10**6), gate=gate)
    for _ in range(4 * k):
        f = rng.randrange(8, 19)
        p = dict(samplerate=48000, cutoff_freq=rng.randrange(3000, 20000), filter_order=rng.randrange(1, 5),
                 fraction_width=f, bitwidth=rng.randrange(6, f + 1), filter_structure=rng.choice(["fir", "iir"]), filter_type="lowpass")
        yield "run", dict(inst=rng.randrange(1, 5), par=p, n=120, seed=rng.randrange(10**6), gate=True)
