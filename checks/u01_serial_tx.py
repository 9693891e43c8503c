"""U01 AsyncSerialTX."""
import random
from amaranth import Record
from rtlsim import Sim
from amlib.io.serial import AsyncSerial, AsyncSerialTX

PARITIES = ["none", "mark", "space", "even", "odd"]
MC = [("MCUart", f"MCUart_{p}{d}.cfg") for p in PARITIES for d in (5, 6)]


def bits(v, w):
    return [(v >> i) & 1 for i in range(w)]


def run(w, par, div, kind, cycles, seed):
    rng = random.Random(seed)
    pins = Record([("rx", [("i", 1)]), ("tx", [("o", 1)])]) if kind == "pins" else None
    kw = dict(divisor=div, data_bits=w, parity=par, pins=pins)
    if rng.random() < .5:
        kw["divisor_bits"] = max(8, div.bit_length())
    if kind == "tx":
        d = tx = AsyncSerialTX(**kw)
    else:
        d = AsyncSerial(**kw)
        tx = d.tx
    line = pins.tx.o if pins is not None else tx.o
    sim = Sim(d)
    ev, ack, data, settled = [], 0, 0, 0
    dense = rng.choice([.001, .02, .3, 1])
    for c in range(cycles):
        if not ack and rng.random() < dense:
            ack, data = 1, rng.choice([0, (1 << w) - 1, rng.getrandbits(w), rng.getrandbits(w)])
        sim.poke(tx.ack, ack)
        sim.poke(tx.data, data if ack else rng.getrandbits(w))
        # the divisor may be reprogrammed while nothing is being sent
        if settled > 2 * div + 6 and not ack and "divisor_bits" in kw and rng.random() < .3:
            div, settled = rng.choice([rng.randrange(1 if kind == "tx" else 5, 40)] * 5 + [rng.randrange(40, 256)]), 0
            sim.poke(d.divisor, div)
        sim.settle()
        rdy, o = sim.peek(tx.rdy), sim.peek(line)
        acc = int(rdy and ack)
        ev.append(dict(o=o, acc=acc, d=bits(data, w) if acc else [], rdy=rdy, div=div, drv=-1))
        settled = settled + 1 if rdy and o and not acc else 0
        if acc:
            ack = 0
        elif ack and rng.random() < .001:
            ack = 0
        sim.edge()
    return [dict(spec="TUartTx", cfg=dict(par=par, w=w, lat=2, cap=1), ev=ev, id=f"tx {kind} w={w} parity={par} div={div} seed={seed}")]


def jobs(tier, rng):
    for rep in range(1 if tier == "quick" else 12):
        for par in PARITIES:
            for w in [1, 5, 7, 8, 9, 12]:
                kind = rng.choice(["tx", "tx", "both", "pins"])
                div = rng.choice([1, 2, 3, 5, 10, 16, 31]) if kind == "tx" else rng.choice([5, 8, 16, 31])
                yield "run", dict(w=w, par=par, div=div, kind=kind, cycles=300 + 200 * div, seed=rng.getrandbits(30))
        # slow lines and wide words
        w, div = rng.choice([(8, 521), (7, 260), (8, 1000), (5, 2170), (8, rng.randrange(256, 700))])
        yield "run", dict(w=w, par=rng.choice(PARITIES), div=div, kind=rng.choice(["tx", "both", "pins"]), cycles=24 * div, seed=rng.getrandbits(30))
        yield "run", dict(w=rng.choice([16, 24, 31, 32, 33, 64]), par=rng.choice(PARITIES), div=rng.choice([5, 6, 9]), kind="both", cycles=2500, seed=rng.getrandbits(30))
