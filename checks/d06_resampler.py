"""D06 fractional resampler."""
import math, random
from amlib.dsp.resampler import FractionalResampler
from amlib.dsp.fixedpointfirfilter import FixedPointFIRFilter
from amlib.dsp.fixedpointiirfilter import FixedPointIIRFilter
from dspkit import *

MC = [("MCResamp", "MCResampA.cfg"), ("MCResamp", "MCResampB.cfg")]


def run(par, n, seed, pin, pout):
    rng = random.Random(seed)
    dut = FractionalResampler(verbose=False, **par)
    ob = par["bitwidth"]
    bw = math.ceil(ob / 8) * 9
    m, d = par["upsample_factor"], par["downsample_factor"]
    fp = dict(samplerate=par["input_samplerate"] * m, bitwidth=bw, cutoff_freq=par["filter_cutoff"],
              filter_order=par["filter_order"], verbose=False)
    if par["filter_structure"] == "iir":
        ref = FixedPointIIRFilter(**fp)
        b, a, pre = [int(t) for t in ref.b], [int(t) for t in ref.a][1:], m - 1
    else:
        ref = FixedPointFIRFilter(**fp)
        b, a, pre = [int(t) for t in ref.taps], [], 4
    if par.get("prescale") is not None:
        pre = par["prescale"]
    sim = Sim(dut)
    i, o = dut.signal_in, dut.signal_out
    ev = []
    data = stimulus(rng, ob, n)
    iv, k, t, end = 0, 0, 0, 0
    burst = 1
    while end < 4 * m + 4 * d + 40:
        if t % 40 == 0:
            burst = rng.choice([0, 1, 1, 1, 2])
        t += 1
        if not iv and k < n and rng.random() < pin:
            iv = 1
        if k == n:
            end += 1
        rdy = 1 if end else int(rng.random() < pout * burst)
        ob_ = sim.cycle([(i.valid, iv), (i.payload, data[k] if iv else full(rng, ob)), (o.ready, rdy)],
                        dict(ir=i.ready, ov=o.valid, op=o.payload))
        ev.append(dict(iv=iv, ip=data[k] if iv else 0, ir=ob_["ir"], ov=ob_["ov"], op=ob_["op"], **{"or": rdy}))
        if iv and ob_["ir"]:
            iv, k = 0, k + 1
        if t > 200 * (n + 10) * max(m, d):
            break
    return [dict(spec="TResamp", id=f"{par} seed={seed} in={pin} out={pout}",
                 cfg=dict(b=b, a=a, n=par["filter_instances"], bw=bw, f=18, ob=ob, m=m, d=d, pre=pre), ev=ev)]


def P(m, d, **kw):
    return dict(dict(input_samplerate=56000, upsample_factor=m, downsample_factor=d, filter_structure="fir", filter_instances=1,
                     filter_order=24, filter_cutoff=20000, bitwidth=16), **kw)


PARS = [P(6, 7), P(3, 2, filter_order=8), P(2, 3, filter_order=8, prescale=2), P(1, 4, filter_order=6), P(5, 1, filter_order=9),
        P(7, 6, bitwidth=8, filter_order=10, prescale=1), P(4, 4, bitwidth=12, filter_instances=2, filter_order=6),
        P(6, 7, filter_structure="iir", filter_order=2), P(2, 5, filter_structure="iir", filter_order=3, prescale=3, bitwidth=14)]


def jobs(tier, rng):
    k = 6 if tier == "thorough" else 1
    for p in PARS:
        for pin, pout in ((1, 1), (.3, 1), (1, .4), (.5, .6)):
            yield "run", dict(par=p, n=40 * k, seed=rng.randrange(10**6), pin=pin, pout=pout)
    for _ in range(4 * k):
        p = P(rng.randrange(1, 9), rng.randrange(1, 9), filter_order=rng.randrange(3, 12), bitwidth=rng.randrange(4, 17),
              filter_instances=rng.randrange(1, 3), prescale=rng.choice([None, 1, 2, 3]))
        yield "run", dict(par=p, n=30, seed=rng.randrange(10**6), pin=.7, pout=.6)
    # large factors, such as those between 44.1 and 48 kHz
    for _ in range(k):
        m, d = rng.choice([(160, 147), (147, 160), (rng.randrange(9, 100), rng.randrange(1, 9)), (rng.randrange(1, 9), rng.randrange(9, 100)),
                           (rng.randrange(9, 40), rng.randrange(9, 40))])
        p = P(m, d, input_samplerate=48000 if m < 30 else 8000, filter_order=rng.randrange(3, 9), prescale=rng.choice([None, 1]))
        yield "run", dict(par=p, n=4 + 600 // m if m > d else 4 + 600 // max(m, 9), seed=rng.randrange(10**6), pin=1, pout=rng.choice([1, .6]))
