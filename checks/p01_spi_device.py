"""P01 SPIDeviceInterface."""
import random
from rtlsim import Sim
from amlib.io.spi import SPIDeviceInterface

MC = [("MCSpi", f"MCSpi{k}.cfg") for k in "0123C"]
MC_THOROUGH = [("MCSpi", f"MCSpi{k}.cfg") for k in "TU"]


def wave(rng, pol, pha, csh, w, n, style):
    """Bus levels (cs, sck, sdi) per cycle: legal waveforms of varied timing, or (style noise) anything."""
    out = []
    cs, ck, di = csh, pol, 0

    def hold(k):
        out.extend([(cs, ck, di)] * k)
    while len(out) < n:
        if style == "noise":
            cs ^= rng.random() < .03
            ck ^= rng.random() < .4
            di = rng.getrandbits(1)
            hold(rng.choice([1, 1, 1, 2, 3]))
            continue
        per = rng.choice([1, 2, 2, 3, 4, 7])
        h = (lambda: hold(per)) if rng.random() < .5 else (lambda: hold(rng.randrange(1, 6)))
        if out or rng.random() < .5:
            hold(rng.choice([1, 2, 3, 5, 9]))
        if rng.random() < .15:            # clock pulses for somebody else
            for _ in range(rng.randrange(1, 12)):
                di = rng.getrandbits(1)
                ck ^= 1
                h()
            ck = pol
            h()
        cs = 1 - csh
        nb = rng.choice([w, w, w, 2 * w, 3 * w, rng.randrange(0, 2 * w + 1)])
        if pha == 0:
            for _ in range(nb):
                di = rng.getrandbits(1)
                h()
                ck = 1 - pol
                h()
                ck = pol
            if nb and rng.random() < .15:     # deselected in the very cycle of the last edge, or before it
                if rng.random() < .5:
                    ck = 1 - pol
                    hold(1)
                ck = pol
            else:
                h()
        else:
            h()
            for _ in range(nb):
                ck = 1 - pol
                di = rng.getrandbits(1)
                h()
                ck = pol
                h()
        if rng.random() < .1:
            ck = 1 - pol
            h()
        cs = csh
        if rng.random() < .7:
            h()
        ck = pol
    return out[:n]


def word(v, w):
    return v if w <= 30 else [(v >> (w - 1 - i)) & 1 for i in range(w)]


def run(w, pol, pha, msb, csh, cdc, style, cycles, seed):
    rng = random.Random(seed)
    d = SPIDeviceInterface(word_size=w, clock_polarity=pol, clock_phase=pha, msb_first=bool(msb),
                           cs_idles_high=bool(csh), skip_input_cdc=not cdc)
    sim = Sim(d)
    ev, wo = [], rng.getrandbits(w)
    outs = dict(sdo=d.spi.sdo, wi=d.word_in, wa=d.word_accepted, wc=d.word_complete)
    for cs, ck, di in wave(rng, pol, pha, csh, w, cycles, style):
        if rng.random() < .05:
            wo = rng.choice([0, (1 << w) - 1, rng.getrandbits(w)])
        i = dict(cs=cs, sck=ck, sdi=di, wo=word(wo, w))
        o = sim.cycle([(d.spi.cs, cs), (d.spi.sck, ck), (d.spi.sdi, di), (d.word_out, wo)], outs)
        ev.append(dict(i, **o) | dict(wi=word(o["wi"], w)))
    return [dict(spec="TSpiDev", cfg=dict(cdc=2 if cdc else 0, pol=pol, pha=pha, msb=msb, csh=csh, w=w), ev=ev,
                 id=f"device w={w} pol={pol} pha={pha} msb={msb} csh={csh} cdc={cdc} {style} seed={seed}")]


def jobs(tier, rng):
    for rep in range(1 if tier == "quick" else 12):
        for w in [2, 3, 5, 8, 12, 16, 17, 24, 30, rng.choice([31, 32, 33, 48, 64])]:
            for mode in range(4):
                for x in range(2):
                    yield "run", dict(w=w, pol=mode & 1, pha=mode >> 1, msb=rng.getrandbits(1), csh=rng.getrandbits(1),
                                      cdc=x, style="noise" if rng.random() < .25 else "legal", cycles=900 + 40 * w, seed=rng.getrandbits(30))
    for w in [1, 4, 7, 9, 10, 11, 13, 20]:
        yield "run", dict(w=w, pol=rng.getrandbits(1), pha=rng.getrandbits(1), msb=rng.getrandbits(1), csh=rng.getrandbits(1),
                          cdc=rng.getrandbits(1), style="legal", cycles=900, seed=rng.getrandbits(30))
