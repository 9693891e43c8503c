"""D07 stereo convolution."""
import contextlib, io, random
import numpy as np
from amlib.dsp.convolution import StereoConvolutionMAC, ConvolutionMode
from dspkit import *

MC = [("MCMac", "MCMac1.cfg"), ("MCMac", "MCMac2.cfg"), ("MCMac", "MCMac3.cfg")]
MODES = {1: ConvolutionMode.CROSSFEED, 2: ConvolutionMode.STEREO, 3: ConvolutionMode.MONO}


def run(taps, slices, bw, mode, n, seed, pin, pout):
    rng = random.Random(seed)
    kind = rng.randrange(4)
    t = np.zeros((taps, 2), dtype=np.int32)
    for i in range(taps):
        for ch in (0, 1):
            t[i, ch] = full(rng, bw) if kind else (-1 if (i + ch) % 2 else (1 << (bw - 2)) >> min(i, 40))
    with contextlib.redirect_stdout(io.StringIO()):
        dut = StereoConvolutionMAC(taps=t, samplerate=48000, clockfrequency=48000 * taps / slices, bitwidth=bw,
                                   convolutionMode=MODES[mode], debug=bool(seed & 1))
    sim = Sim(dut)
    i, o = dut.signal_in, dut.signal_out
    left, right = stimulus(rng, bw, n), stimulus(rng, bw, n)
    words = []
    for a, b in zip(left, right):
        p = [(1, 0, a), (0, 1, b)]
        words += p if rng.random() < .8 else p[::-1]
    ev, k, end, cyc, quiet = [], 0, 0, 0, 0
    iv = 0
    burst = 1
    while end < 3 * taps + 60:
        if cyc % 30 == 0:
            burst = rng.choice([0, 1, 1, 2])
        cyc += 1
        if not iv and k < len(words) and rng.random() < pin:
            iv = 1
        if k == len(words):
            end += 1
        f, l, p = words[k] if iv else (rng.randrange(2), rng.randrange(2), full(rng, bw))
        rdy = 1 if end else int(rng.random() < pout * burst)
        r = sim.cycle([(i.valid, iv), (i.first, f), (i.last, l), (i.payload, p), (o.ready, rdy)],
                      dict(ir=i.ready, ov=o.valid, op=o.payload, of=o.first, ol=o.last))
        ev.append(dict(r, iv=iv, il=l, ip=p, **{"if": f, "or": rdy}))
        quiet += 1
        if r["ov"] and rdy or iv and r["ir"]:
            quiet = 0
        if iv and r["ir"]:
            iv, k = 0, k + 1
        if quiet > 60 * (taps + 20):         # hangs: the specification tells
            break
    return [dict(spec="TMac", id=f"taps={taps}/{slices} bw={bw} mode={mode} seed={seed} in={pin} out={pout}",
                 cfg=dict(t1=[int(v) for v in t[:, 0]], t2=[int(v) for v in t[:, 1]], bw=bw, mode=mode, lim=4 * taps + 30),
                 ev=ev)]


PARS = [(1, 1, 8), (2, 1, 8), (4, 2, 12), (8, 4, 16), (6, 3, 9), (8, 1, 24), (16, 4, 24), (8, 8, 16), (32, 4, 24), (12, 2, 15)]


def jobs(tier, rng):
    k = 6 if tier == "thorough" else 1
    for taps, sl, bw in PARS:
        for mode in (1, 2, 3):
            pin, pout = rng.choice([(1, 1), (.4, 1), (1, .3), (.5, .5)])
            yield "run", dict(taps=taps, slices=sl, bw=bw, mode=mode, n=24 * k, seed=rng.randrange(10**6), pin=pin, pout=pout)
    for _ in range(6 * k):
        sl = rng.randrange(1, 5)
        yield "run", dict(taps=sl * rng.randrange(1, 6), slices=sl, bw=rng.randrange(6, 25), mode=rng.randrange(1, 4), n=20 * k,
                          seed=rng.randrange(10**6), pin=rng.choice([1, .3]), pout=rng.choice([1, .3]))
    for bw in [25, 31, 32 - rng.randrange(1, 8)][:3 if k > 1 else None]:
        sl = rng.randrange(1, 4)
        yield "run", dict(taps=sl * rng.randrange(1, 5), slices=sl, bw=bw, mode=rng.randrange(1, 4), n=12 * k,
                          seed=rng.randrange(10**6), pin=1, pout=rng.choice([1, .3]))
    sl = rng.randrange(1, 4)
    yield "run", dict(taps=sl * rng.randrange(15, 40), slices=sl, bw=rng.randrange(8, 17), mode=rng.randrange(1, 4), n=10 * k,
                      seed=rng.randrange(10**6), pin=1, pout=1)
