"""U03 UARTTransmitter, UARTMultibyteTransmitter, UARTTransmitterPeripheral."""
import random
from rtlsim import Sim
from amlib.stream.uart import UARTTransmitter, UARTMultibyteTransmitter, UARTTransmitterPeripheral
from checks.u01_serial_tx import bits, MC


def run(kind, nbytes, div, cycles, seed):
    rng = random.Random(seed)
    d = dict(byte=lambda: UARTTransmitter(divisor=div), multi=lambda: UARTMultibyteTransmitter(byte_width=nbytes, divisor=div),
             bus=lambda: UARTTransmitterPeripheral(divisor=div))[kind]()
    sim = Sim(d)
    w = 8 * nbytes
    ev, v, data, we = [], 0, 0, 1
    dense = rng.choice([.002, .02, .3, 1])
    bad = None
    for c in range(cycles):
        if not v and rng.random() < dense:
            v, data, we = 1, rng.choice([0, (1 << w) - 1, rng.getrandbits(w), rng.getrandbits(w)]), int(rng.random() < .8)
        x = data if v else rng.getrandbits(w)
        if kind == "bus":
            cyc, stb = (1, 1) if v else rng.choice([(0, 0), (1, 0), (0, 1)])
            for s, y in ((d.bus.cyc, cyc), (d.bus.stb, stb), (d.bus.we, we if v else rng.getrandbits(1)), (d.bus.dat_w, x)):
                sim.poke(s, y)
        else:
            sim.poke(d.stream.valid, v); sim.poke(d.stream.payload, x)
            sim.poke(d.stream.first, rng.getrandbits(1)); sim.poke(d.stream.last, rng.getrandbits(1))
        sim.settle()
        rdy = sim.peek(d.bus.ack if kind == "bus" else d.stream.ready)
        taken = bool(v and rdy)
        acc = int(taken and (kind != "bus" or we))
        drv = sim.peek(d.driving) if kind == "byte" else -1
        if kind == "byte" and sim.peek(d.idle) != 1 - drv:
            bad = "idle flag"
        if kind == "multi" and sim.peek(d.idle) and not rdy:
            bad = "idle flag"
        # a read on the bus is acknowledged like a write, whenever the peripheral is free
        ev.append(dict(o=sim.peek(d.tx), acc=acc, d=bits(data, w) if acc else [], rdy=rdy, div=div, drv=drv))
        if taken:
            v = 0
        sim.edge()
    t = dict(spec="TUartTx", cfg=dict(par="none", w=8, lat=2, cap=nbytes + 1), ev=ev, id=f"uart {kind} bytes={nbytes} div={div} seed={seed}")
    return [dict(t, bad=bad) if bad else t]


def jobs(tier, rng):
    for rep in range(1 if tier == "quick" else 12):
        for kind, nb in [("byte", 1), ("bus", 1), ("multi", 1), ("multi", 2), ("multi", 3), ("multi", 4), ("multi", 8)]:
            for div in [1, 2, 5, 10, 16, 27]:
                yield "run", dict(kind=kind, nbytes=nb, div=div, cycles=300 + 160 * div, seed=rng.getrandbits(30))
        # slow lines and long words
        for kind, nb, div in [("byte", 1, rng.choice([521, 257, rng.randrange(100, 600)])), ("multi", rng.choice([5, 16, 17, 33]), rng.choice([1, 2])),
                              (rng.choice(["bus", "multi"]), 1, rng.choice([260, 300, 512]))]:
            yield "run", dict(kind=kind, nbytes=nb, div=div, cycles=24 * div + nb * 25 * div, seed=rng.getrandbits(30))
