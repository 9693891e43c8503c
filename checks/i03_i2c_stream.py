"""I03 I2CStreamTransmitter: packets of a stream on the I2C bus."""
import random
from rtlsim import Sim
from amlib.stream.i2c import I2CStreamTransmitter
from checks.i01_i2c_initiator import Pads, Rec, bits

MC = [("MCI2CU", "MCI2CU.cfg")]


def run(period, stretch, depth, npkt, seed):
    rng = random.Random(seed)
    pads = Pads()
    kw = dict(clk_stretch=bool(stretch)) if not stretch or rng.random() < .5 else {}
    d = I2CStreamTransmitter(pads, period, fifo_depth=depth, **kw)
    sim = Sim(d)
    words = []
    for _ in range(npkt):
        n = rng.choice([1, 1, 2, 3, 5, depth + 2])
        words += [dict(d=rng.choice([0, 255, rng.getrandbits(8)]), first=int(i == 0), last=int(i == n - 1)) for i in range(n)]
    rec = Rec()
    s = d.stream_in
    gap, mode, tail, idle, hold, dsda = 0, 0, 0, 0, 0, 1
    prev = 1
    wait = 48 * (period // 4 + 6)
    while tail < wait + 50:
        scl = 1 - sim.peek(pads.scl_t.oe) and int(hold <= 0)
        if prev and not scl:
            dsda = rng.getrandbits(1)           # an acknowledge, or not: only matters in its pulse
            if stretch and rng.random() < .2:
                hold = rng.choice([1, 10, 40])
        hold -= 1
        prev = scl
        # the device may only pull SDA in the acknowledge pulse: the harness counts pulses
        sda = 1 - sim.peek(pads.sda_t.oe)
        ackslot = getattr(sim, "pulses", 0) == 9
        sda = sda and (dsda if ackslot else 1)
        sim.poke(pads.scl_t.i, scl)
        sim.poke(pads.sda_t.i, sda)
        if words and gap <= 0:
            w = words[0]
            pk = [(s.valid, 1), (s.payload, w["d"]), (s.first, w["first"]), (s.last, w["last"])]
        else:
            pk = [(s.valid, 0), (s.payload, rng.getrandbits(8)), (s.first, rng.getrandbits(1)), (s.last, rng.getrandbits(1))]
            gap -= 1
        for a, b in pk:
            sim.poke(a, b)
        sim.settle()
        acc = []
        if sim.peek(s.valid) and sim.peek(s.ready):
            w = words.pop(0)
            acc = [dict(d=bits(w["d"]), first=w["first"], last=w["last"])]
            if rng.random() < .1:
                mode = rng.choice([0, 0, 1, 2])
            gap = [0, rng.choice([0, 0, 5, 40]), rng.choice([10, 300, 50 * (period // 4 + 2)])][mode]
        tail = 0 if words else tail + 1
        e = dict(scl=scl, sda=sda, oc=1 - sim.peek(pads.scl_t.oe), od=1 - sim.peek(pads.sda_t.oe), w=acc, end=0)
        # pulse counter of the harness: START resets, every falling SCL counts
        if rec.ev:
            p = rec.ev[-1]
            if p["scl"] and scl and p["sda"] and not sda:
                sim.pulses = 0
            if p["scl"] and not scl:
                sim.pulses = getattr(sim, "pulses", 0) % 9 + 1
        rec.add(e, bool(acc))
        if sim.peek(pads.scl_t.oe) or sim.peek(pads.sda_t.oe) or getattr(sim, "busyq", 0) and acc:
            tail = 0
        sim.edge()
        idle += 1
        if idle > 400000:
            break
    rec.ev.append(dict(rec.ev[-1], n=1, w=[], end=1))
    return [dict(spec="TI2CTx", cfg=dict(wait=wait), ev=rec.ev, id=f"i2c stream period={period} stretch={stretch} depth={depth} seed={seed}")]


def jobs(tier, rng):
    for _ in range(1 if tier == "quick" else 12):
        for period in [8, 16, 17, 40]:
            for depth in [1, 2, 4, 16]:
                yield "run", dict(period=period, stretch=1, depth=depth, npkt=12, seed=rng.getrandbits(30))
                yield "run", dict(period=period, stretch=0, depth=depth, npkt=12, seed=rng.getrandbits(30))
