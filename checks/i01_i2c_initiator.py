"""I01 I2C initiator on the wire."""
import random
from amaranth import Signal
from rtlsim import Sim
from amlib.io.i2c import I2CInitiator

MC = [("MCI2C", "MCI2C.cfg")]
TOURS = [dict(module="MCI2CG", cfg="MCI2CG.cfg", fn="replay", max_len=60, kwargs=dict(period=8, stretch=1)),
         dict(module="MCI2CG", cfg="MCI2CG.cfg", fn="replay", max_len=60, kwargs=dict(period=16, stretch=0))]


class Triple:
    def __init__(self, name):
        self.i, self.o, self.oe = Signal(reset=1, name=name + "_i"), Signal(name=name + "_o"), Signal(name=name + "_oe")


class Pads:
    def __init__(self):
        self.scl_t, self.sda_t = Triple("scl"), Triple("sda")


class Device:
    """The other side of the bus: acknowledges, sends read data, stretches the clock."""
    def __init__(self, rng, delay, stretch):
        self.rng, self.delay, self.stretch = rng, delay, stretch
        self.scl = self.sda = 1
        self.prev = 1
        self.plan, self.pos, self.next, self.at, self.hold = [], 0, 1, -1, 0

    def command(self, plan):
        self.plan, self.pos = plan, 0

    def step(self, scl):
        """called with the SCL line of this cycle; sets drive for the next one"""
        if self.prev and not scl:
            self.next = self.plan[self.pos] if self.pos < len(self.plan) else 1
            self.pos += 1
            self.at = self.rng.randint(0, self.delay)
            if self.stretch and self.rng.random() < .3:      # slow data: the clock is held until it is there
                self.at = self.rng.randint(0, 12 * self.delay + 8)
            if self.stretch and self.rng.random() < .4:
                self.hold = self.rng.choice([1, 2, 5, 20, 60, self.at + 1])
        if self.at == 0:
            self.sda = self.next
        self.at -= 1
        self.scl = 0 if self.hold > 0 or (self.at >= -2 and self.stretch) else 1
        self.hold -= 1
        self.prev = scl


def bits(v, w=8):
    return [(v >> (w - 1 - i)) & 1 for i in range(w)]


class Rec:
    """Run-length encoded recording."""
    def __init__(self):
        self.ev, self.key = [], None

    def add(self, e, force=False):
        k = tuple(sorted((a, str(b)) for a, b in e.items()))
        if not force and k == self.key and self.ev[-1]["n"] < 5000:
            self.ev[-1]["n"] += 1
        else:
            self.ev.append(dict(e, n=1))
        self.key = None if force else k


def bench(period, stretch, cmds, seed, name, noise=.3, clk_stretch=None, delay=None):
    rng = random.Random(seed)
    pads = Pads()
    use = bool(stretch) if clk_stretch is None else clk_stretch
    d = I2CInitiator(pads, period, clk_stretch=use) if not use or rng.random() < .5 else I2CInitiator(pads, period)
    sim = Sim(d)
    dev = Device(rng, max(0, period // 4 - 4 if not use else period // 4) if delay is None else delay, stretch)
    rec = Rec()
    q = period // 4
    todo = list(cmds)
    pause, guard = rng.choice([0, 3]), 0
    strobes = dict(start=d.start, stop=d.stop, write=d.write, read=d.read)
    while todo or sim.peek(d.busy) or pause > -6:
        scl = 1 - sim.peek(pads.scl_t.oe) and dev.scl
        sda = 1 - sim.peek(pads.sda_t.oe) and dev.sda
        sim.poke(pads.scl_t.i, scl)
        sim.poke(pads.sda_t.i, sda)
        busy = sim.peek(d.busy)
        cmd, dat, k = "none", bits(rng.getrandbits(8)), rng.getrandbits(1)
        if not busy:
            pause -= 1
            guard = 0
            if pause < 0 and todo:
                c = todo.pop(0)
                cmd = c["cmd"]
                dat, k = bits(c.get("d", 0)), c.get("k", 0)
                back = bits(c.get("r", 0))
                dev.command([1] * 8 + [1 - c.get("a", 1)] if cmd == "write" else back + [1] if cmd == "read" else [1])
                pause = rng.choice([0, 0, 0, 1, 2, 10, period * 2])
        else:
            guard += 1
            if guard > 300 * (period + 90):
                break
        sim.poke(d.data_i, int("".join(map(str, dat)), 2))
        sim.poke(d.ack_i, k)
        for n, s in strobes.items():
            sim.poke(s, int(n == cmd) if not busy else int(rng.random() < noise))
        sim.settle()
        e = dict(scl=scl, sda=sda, oc=1 - sim.peek(pads.scl_t.oe), od=1 - sim.peek(pads.sda_t.oe), busy=busy,
                 ack=sim.peek(d.ack_o), q=bits(sim.peek(d.data_o)), cmd=cmd, d=dat if cmd != "none" else [0] * 8, k=k if cmd != "none" else 0)
        if sim.peek(pads.scl_t.oe) and sim.peek(pads.scl_t.o) or sim.peek(pads.sda_t.oe) and sim.peek(pads.sda_t.o):
            return dict(bad="a line is driven high", spec="TI2CInit", cfg={}, ev=[], id=name)
        rec.add(e, cmd != "none")
        sim.edge()
        dev.step(scl)
    return dict(spec="TI2CInit", cfg=dict(q=q, half=period // 2, slack=4 if use else 1), ev=rec.ev, id=name)


def replay(period, stretch, walks):
    return [bench(period, stretch, w, 100 + j, f"model behaviour {j} period={period} stretch={stretch}") for j, w in enumerate(walks)]


def random_cmds(rng, n):
    out, up = [], False
    for _ in range(n):
        c = rng.choice(["write", "read", "write", "read", "start", "stop"]) if up else "start"
        if c == "start" and out and out[-1]["cmd"] == "start":
            c = "write"         # an empty message cannot be followed by a repeated START
        up = c != "stop"
        val = rng.choice([0, 255, 0x55, 0xaa, 1, 128, rng.getrandbits(8)])
        out.append(dict(cmd=c, d=val, a=rng.getrandbits(1), k=rng.getrandbits(1), r=rng.choice([0, 255, rng.getrandbits(8), rng.getrandbits(8)])))
    return out + [dict(cmd="stop")] if up else out


def run(period, stretch, n, seed, clk_stretch=None):
    rng = random.Random(seed)
    return [bench(period, stretch, random_cmds(rng, n), seed, f"initiator period={period} stretch={stretch} watch={clk_stretch} seed={seed}", clk_stretch=clk_stretch)]


def jobs(tier, rng):
    for _ in range(1 if tier == "quick" else 12):
        for period in [8, 9, 12, 15, 16, 17, 20, 32, 33, 64, 100, rng.randrange(8, 60), rng.choice([250, 260, rng.randrange(60, 300)])]:
            n = 40 if period < 60 else 12
            yield "run", dict(period=period, stretch=1, n=n, seed=rng.getrandbits(30))
            yield "run", dict(period=period, stretch=0, n=n, seed=rng.getrandbits(30), clk_stretch=True)
            yield "run", dict(period=period if period >= 16 else 16, stretch=0, n=n, seed=rng.getrandbits(30))
