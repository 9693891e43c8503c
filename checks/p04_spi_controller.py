"""P04 SPIControllerInterface."""
import random
from rtlsim import Sim
from amlib.io.spi import SPIControllerInterface
from checks.p01_spi_device import word

MC = [("MCSpi", f"MCSpi{k}.cfg") for k in "0123C"]


def run(w, div, pol, pha, msb, csh, cdc, n, seed):
    rng = random.Random(seed)
    d = SPIControllerInterface(word_size=w, divisor=div, clock_polarity=pol, clock_phase=pha, msb_first=bool(msb),
                               cs_idles_high=bool(csh), skip_input_cdc=not cdc)
    sim = Sim(d)
    outs = dict(cs=d.spi.cs, sck=d.spi.sck, sdo=d.spi.sdo, wc=d.word_complete, wi=d.word_in, wa=d.word_accepted)
    wo, sdi, st, wait = rng.getrandbits(w), rng.getrandbits(1), 0, rng.randrange(0, 60)
    ev, last, dt, done, edges = [], None, 0, 0, 0
    psel = pck = 0
    busy = False
    noise = rng.random() < .5
    for c in range(n * div * (w + 6) + 400):
        # word_out may change while nothing is under way and (having been taken) in mid-transfer
        if (not busy or edges >= 2) and rng.random() < .05:
            wo = rng.choice([0, (1 << w) - 1, rng.getrandbits(w)])
        st = 0
        if not busy and wait == 0:
            st, busy, edges = 1, True, 0
        elif busy and noise and rng.random() < .02:
            st = 1
        elif not busy:
            wait -= 1
        sim.poke(d.spi.sdi, sdi); sim.poke(d.start_transfer, st); sim.poke(d.word_out, wo)
        sim.settle()
        o = {k: sim.peek(s) for k, s in outs.items()}
        key = (o["cs"], o["sck"], o["sdo"], o["wc"], o["wa"], st, sdi)
        dt += 1
        if key != last or st:
            ev.append(dict(dt=dt, cs=o["cs"], sck=o["sck"], sdo=o["sdo"], sdi=sdi, st=st, wa=o["wa"], wc=o["wc"], wi=word(o["wi"], w), wo=word(wo, w)))
            dt, last = 0, key
        # an ideal slave: new bit at chip select (phase 0) and at every shifting edge
        sel, ck = o["cs"] ^ csh, o["sck"] ^ pol
        shift = (ck and not pck) if pha else (pck and not ck)
        edges += ck != pck
        if sel and ((shift and (psel or pha)) or (not psel and not pha)):
            sdi = rng.getrandbits(1)
        psel, pck = sel, ck
        if o["wc"]:
            done, busy = done + 1, False
            wait = rng.choice([0, 1, 2, 3, div // 2, div, rng.randrange(0, 4 * div)])
        sim.edge()
        if done >= n:
            break
    ev.append(dict(ev[-1], dt=dt, st=0, wc=0) if ev[-1]["wc"] == 0 else dict(ev[-1], dt=1, st=0, wc=0, cs=csh, sck=pol))
    t = dict(spec="TSpiCtl", cfg=dict(pol=pol, pha=pha, msb=msb, csh=csh, w=w, div=div), ev=ev,
             id=f"controller w={w} div={div} pol={pol} pha={pha} msb={msb} csh={csh} cdc={cdc} seed={seed}")
    if done < n:
        t["bad"] = "the transfers did not all complete"
    return [t]


def jobs(tier, rng):
    for rep in range(1 if tier == "quick" else 10):
        for mode in range(4):
            for cdc in (0, 1):
                for csh in (0, 1):
                    for w in rng.sample([2, 3, 4, 7, 8, 9, 12, 15, 16, 17, 24, 30, 32, 33, 48], 4) + [8]:
                        div = rng.choice([6, 8, 10, 12, 14, 16, 22, 32, 40] if not cdc else [12, 14, 16, 18, 20, 22, 24, 32, 40])
                        yield "run", dict(w=w, div=div, pol=mode & 1, pha=mode >> 1, msb=rng.getrandbits(1), csh=csh, cdc=cdc,
                                          n=6, seed=rng.getrandbits(30))
