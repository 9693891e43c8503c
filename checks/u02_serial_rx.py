"""U02 AsyncSerialRX."""
import random
from amaranth import Record
from rtlsim import Sim
from amlib.io.serial import AsyncSerial, AsyncSerialRX
from checks.u01_serial_tx import PARITIES, bits, MC


def line(rng, w, par, div, n):
    """Levels per cycle: frames (some damaged, some with a foreign bit time), gaps, breaks, glitches."""
    out = []
    while len(out) < n:
        k = rng.random()
        if k < .07:
            out += [0] * rng.randrange(1, 3 * div * (w + 3))
        elif k < .14:
            out += [rng.getrandbits(1) for _ in range(rng.randrange(1, 2 * div))]
        else:
            d = rng.choice([0, (1 << w) - 1, rng.getrandbits(w), rng.getrandbits(w)])
            b = bits(d, w)
            p = {"none": [], "mark": [1], "space": [0], "even": [sum(b) & 1], "odd": [1 - sum(b) & 1]}[par]
            f = [0] + b + p + [1]
            if rng.random() < .15:
                f[rng.randrange(1, len(f))] ^= 1
            per = div if rng.random() < .8 else max(1, div + rng.choice([-1, 1]))
            for x in f:
                out += [x] * per
        out += [1] * rng.choice([0, 0, 0, 1, 2, div, rng.randrange(0, 4 * div)])
    return out[:n]


def run(w, par, div, kind, cycles, seed):
    rng = random.Random(seed)
    pins = Record([("rx", [("i", 1)]), ("tx", [("o", 1)])]) if kind == "pins" else None
    kw = dict(divisor=div, data_bits=w, parity=par, pins=pins)
    if rng.random() < .5:
        kw["divisor_bits"] = max(8, div.bit_length())
    if kind == "rx":
        d = rx = AsyncSerialRX(**kw)
    else:
        d = AsyncSerial(**kw)
        rx = d.rx
    inp = pins.rx.i if pins is not None else rx.i
    sim = Sim(d, init=[(inp, 1)])
    ev, pipe = [], [1, 1]
    ackp = rng.choice([1, 1, .99, .9, .5, .02])
    ack = 1
    levels = line(rng, w, par, div, cycles)
    if "divisor_bits" in kw:
        # the divisor is reprogrammed while the line is idle
        n, divs = len(levels), [(0, div)]
        levels, top = levels[:n // 2], (1 << kw["divisor_bits"]) - 1
        while len(levels) < n:
            levels += [1] * (divs[-1][1] * (w + 4) + 10)
            divs.append((len(levels) - 4, min(top, rng.choice([5, 7, 12, rng.randrange(5, 60)]))))
            levels += line(rng, w, par, divs[-1][1], rng.randrange(2, 8) * divs[-1][1] * (w + 3))
    else:
        divs = [(0, div)]
    for c, i in enumerate(levels):
        if rng.random() < .2:
            ack = int(rng.random() < ackp)
        if len(divs) > 1 and divs[1][0] == c:
            divs.pop(0)
            div = divs[0][1]
            sim.poke(d.divisor, div)
        o = sim.cycle([(inp, i), (rx.ack, ack)], dict(rdy=rx.rdy, d=rx.data, ov=rx.err.overflow, fr=rx.err.frame, pe=rx.err.parity))
        if pins is not None:
            pipe.append(i)
            i = pipe.pop(0)
        ev.append(dict(o, d=bits(o["d"], w), i=i, ack=ack, div=div))
    return [dict(spec="TUartRx", cfg=dict(par=par, w=w), ev=ev, id=f"rx {kind} w={w} parity={par} div={div} seed={seed}")]


def jobs(tier, rng):
    for rep in range(1 if tier == "quick" else 12):
        for par in PARITIES:
            for w in [1, 5, 7, 8, 9, 12]:
                kind = rng.choice(["rx", "rx", "both", "pins"])
                div = rng.choice([5, 5, 6, 7, 8, 16, 31])
                yield "run", dict(w=w, par=par, div=div, kind=kind, cycles=500 + 250 * div, seed=rng.getrandbits(30))
        # slow lines and wide words
        w, div = rng.choice([(8, 521), (7, 260), (8, 1000), (5, 2170), (8, rng.randrange(256, 700))])
        yield "run", dict(w=w, par=rng.choice(PARITIES), div=div, kind=rng.choice(["rx", "both", "pins"]), cycles=30 * div, seed=rng.getrandbits(30))
        yield "run", dict(w=rng.choice([16, 24, 31, 32, 33, 64]), par=rng.choice(PARITIES), div=rng.choice([5, 6, 9]), kind="both", cycles=4000, seed=rng.getrandbits(30))
