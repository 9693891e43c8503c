"""I02 I2C target."""
import random
from amaranth import Signal
from rtlsim import Sim
from amlib.io.i2c import I2CTarget
from checks.i01_i2c_initiator import Pads, bits

MC = [("MCI2CT", "MCI2CT.cfg")]


class Bench:
    def __init__(self, addr, half, seed, jitter=True):
        self.rng = random.Random(seed)
        self.pads = Pads()
        self.d = d = I2CTarget(self.pads)
        self.sim = Sim(d, init=[(d.address, addr)])
        self.half, self.jitter = half, jitter
        self.scl = self.sda = 1
        self.free = True
        self.ev = []
        self.line = 1
        self.ack_delay, self.ack_hold = -1, 0
        self.reset_op()

    def reset_op(self):
        self.seen = dict(start=0, stop=0, restart=0, write=0, read=0)
        self.wd, self.rd, self.ak = [], [0] * 8, self.rng.getrandbits(1)

    def tick(self, n):
        d, sim = self.d, self.sim
        for _ in range(n):
            scl = self.scl and 1 - sim.peek(self.pads.scl_t.oe)
            self.line = self.sda and 1 - sim.peek(self.pads.sda_t.oe)
            assert scl == self.scl, "target stretches the clock"
            sim.poke(self.pads.scl_t.i, scl)
            sim.poke(self.pads.sda_t.i, self.line)
            sim.poke(d.ack_o, 0)
            sim.poke(d.data_o, self.rng.getrandbits(8))
            sim.settle()
            st = {k: sim.peek(getattr(d, k)) for k in self.seen}
            for k, v in st.items():
                self.seen[k] += v
            if st["write"]:
                self.wd = bits(sim.peek(d.data_i))
                self.ack_delay = self.rng.randint(0, max(0, self.half - 6)) if self.ak else -1
                self.ack_hold = 0
            if self.ack_delay == 0:
                self.ack_hold = self.rng.choice([1, 1, 3, self.half, 6 * self.half, 100 * self.half])
            if self.ack_hold > 0:
                sim.poke(d.ack_o, 1)
                self.ack_hold -= 1
            self.ack_delay -= 1
            if st["read"]:
                v = self.rng.choice([0, 255, 0x7f, 0x80, self.rng.getrandbits(8)])
                self.rd = bits(v)
                sim.poke(d.data_o, v)
            sim.settle()
            sim.edge()

    def phase(self):
        self.tick(self.half + (self.rng.randrange(self.half) if self.jitter else 0))

    def low(self, sda):
        """SCL low phase, SDA changed in it"""
        self.scl = 0
        k = self.rng.randint(1, 2)
        self.tick(k)
        self.sda = sda
        self.phase()

    def record(self, op, m, line, pulse):
        self.ev.append(dict(op=op, m=m, line=line, pulse=pulse, ak=self.ak, rd=self.rd, wd=self.wd, **self.seen))
        self.reset_op()

    def bit(self, m):
        self.low(m)
        self.scl = 1
        self.phase()
        line = self.line
        self.record("B", m, line, 0)
        return line

    def start(self):
        pulse = 0
        if not self.free:
            self.low(1)
            if not self.line:             # the target holds SDA: only a bit is possible
                self.scl = 1
                self.phase()
                return self.record("B", 1, self.line, 0)
            pulse = 1
            self.scl = 1
            self.phase()
        self.free = False
        self.sda = 0
        self.phase()
        self.record("S", 0, 0, pulse)

    def stop(self):
        self.low(1)
        if not self.line:
            self.scl = 1
            self.phase()
            return self.record("B", 1, self.line, 0)
        self.sda = 0
        self.phase()
        self.scl = 1
        self.phase()
        self.sda = 1
        self.phase()
        self.free = True
        self.record("P", 0, 0, 1)

    def idle(self):
        self.tick(self.rng.choice([1, 10, 40]))


def bench_ops(addr, half, seed, ops, name):
    b = Bench(addr, half, seed)
    for op in ops:
        if op == "S":
            b.start()
        elif op == "P":
            if not b.free:
                b.stop()
                b.idle()
        else:
            if b.free:
                b.start()
            b.bit(int(op))
    b.tick(4)
    return dict(spec="TI2CTarget", cfg=dict(addr=bits(addr, 7)), ev=b.ev, id=name)


def run(addr, half, n, seed):
    rng = random.Random(seed)
    b = Bench(addr, half, seed)
    for _ in range(n):
        b.start()
        a = rng.choice([addr, addr, addr, addr ^ (1 << rng.randrange(7)), rng.getrandbits(7)])
        byte = a << 1 | rng.getrandbits(1)
        cut = rng.random()
        if cut < .1:
            for x in bits(byte)[:rng.randrange(8)]:
                b.bit(x)
        else:
            for x in bits(byte):
                b.bit(x)
            b.bit(1)
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                wr = not byte & 1
                v = rng.choice([0, 255, rng.getrandbits(8)])
                for x in bits(v) if wr else [1] * 8:
                    b.bit(x)
                b.bit(1 if wr else int(rng.random() < .4))
            for _ in range(rng.choice([0, 0, 1, 3, 7, 8])):
                b.bit(1 if byte & 1 else rng.getrandbits(1))
        if rng.random() < .6:
            b.stop()
            if b.free and rng.random() < .5:
                b.idle()
    b.tick(4)
    return [dict(spec="TI2CTarget", cfg=dict(addr=bits(addr, 7)), ev=b.ev, id=f"target addr={addr:#x} half={half} seed={seed}")]


def jobs(tier, rng):
    for _ in range(2 if tier == "quick" else 40):
        for half in [8, 10, 16, 25]:
            for addr in [0x28, 0, 127, rng.getrandbits(7)]:
                yield "run", dict(addr=addr, half=half, n=40, seed=rng.getrandbits(30))
