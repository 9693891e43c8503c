"""I04 I2C initiator and target gateware on the same bus."""
import random
from rtlsim import Sim
from amaranth import Module
from amlib.io.i2c import I2CInitiator, I2CTarget
from checks.i01_i2c_initiator import Pads, bits

MC = [("MCI2CSys", "MCI2CSys.cfg")]


def run(period, addr, n, seed):
    rng = random.Random(seed)
    pi, pt = Pads(), Pads()
    m = Module()
    m.submodules.i = i = I2CInitiator(pi, period)
    m.submodules.t = t = I2CTarget(pt)
    sim = Sim(m, init=[(t.address, addr)])
    ev, ph, selr = [], "off", False

    def tick():
        scl = 1 - (sim.peek(pi.scl_t.oe) | sim.peek(pt.scl_t.oe))
        sda = 1 - (sim.peek(pi.sda_t.oe) | sim.peek(pt.sda_t.oe))
        for p in (pi, pt):
            sim.poke(p.scl_t.i, scl)
            sim.poke(p.sda_t.i, sda)
        for x in (i.start, i.stop, i.write, i.read):
            if x is not pulse:
                sim.poke(x, 0)
        sim.poke(t.data_o, rng.getrandbits(8))
        sim.poke(t.ack_o, 0)
        sim.settle()
        for k in seen:
            seen[k] += sim.peek(getattr(t, k))
        if sim.peek(t.write):
            extra["wd"] = bits(sim.peek(t.data_i))
            sim.poke(t.ack_o, ta)
        if sim.peek(t.read):
            v = rng.choice([0, 255, rng.getrandbits(8)])
            extra["rd"] = bits(v)
            sim.poke(t.data_o, v)
        sim.settle()
        sim.edge()

    pulse = None
    seen = dict(start=0, stop=0, restart=0, write=0, read=0)
    extra, ta = {}, 0
    for _ in range(5):
        tick()
    sel = None
    for _ in range(n):
        if ph == "off":
            cmd = "start"
        elif ph == "addr":
            cmd = "write"
        elif sel == "r":
            cmd = "read"
        else:
            cmd = rng.choice(["start", "stop", "stop"] + (["write"] * 5 if sel == "w" else []))
        d = rng.getrandbits(8)
        if ph == "addr" and cmd == "write":
            a = rng.choice([addr, addr, addr, rng.getrandbits(7)])
            d = a << 1 | rng.getrandbits(1)
            sel = ("r" if d & 1 else "w") if a == addr else None
        k = int(rng.random() < .6)
        ta = int(rng.random() < .8)
        seen = dict(start=0, stop=0, restart=0, write=0, read=0)
        extra = dict(wd=[], rd=[0] * 8)
        sim.poke(i.data_i, d)
        sim.poke(i.ack_i, k)
        pulse = getattr(i, cmd)
        sim.poke(pulse, 1)
        tick()
        pulse = None
        g = 0
        while True:
            tick()
            g += 1
            if not sim.peek(i.busy):
                break
            if g > 100 * (period + 40):
                return [dict(bad="initiator stays busy", spec="TI2CSys", cfg={}, ev=[], id=f"i2c system seed={seed}")]
        for _ in range(6 + rng.choice([0, 0, 3, 50])):
            tick()
        ev.append(dict(cmd=cmd, d=bits(d), k=k, ta=ta, ack=sim.peek(i.ack_o), q=bits(sim.peek(i.data_o)), **seen, **extra))
        ph = {"start": "addr", "stop": "off"}.get(cmd, "in")
        if cmd in ("start", "stop") or cmd == "read" and not k:
            sel = None
    return [dict(spec="TI2CSys", cfg=dict(addr=bits(addr, 7)), ev=ev, id=f"i2c system period={period} addr={addr:#x} seed={seed}")]


def jobs(tier, rng):
    for _ in range(2 if tier == "quick" else 30):
        for period in [20, 24, 32, 50]:
            for addr in [0x28, 0, 127, rng.getrandbits(7)]:
                yield "run", dict(period=period, addr=addr, n=80, seed=rng.getrandbits(30))
