"""P02 SPICommandInterface."""
import random
from rtlsim import Sim
from amlib.io.spi import SPICommandInterface

MC = [("MCSpiReg", "MCSpiReg.cfg")]


def bits(v, w):
    return [(v >> (w - 1 - i)) & 1 for i in range(w)]


class Host:
    """A bus master doing one operation at a time; collects what happens meanwhile."""
    def __init__(self, sim, spi, half, rng, watch, cs0=0):
        self.sim, self.spi, self.half, self.rng, self.watch = sim, spi, half, rng, watch
        self.cs, self.ck, self.m = cs0, 0, 0
        self.seen = None

    def hold(self, n=None):
        n = n or (self.half if self.rng.random() < .8 else self.half + self.rng.randrange(1, 9))
        for _ in range(n):
            self.sim.poke(self.spi.cs, self.cs); self.sim.poke(self.spi.sck, self.ck); self.sim.poke(self.spi.sdi, self.m)
            self.sim.settle()
            self.watch()
            self.sdo = self.sim.peek(self.spi.sdo)
            self.sim.edge()

    def do(self, op, m=0):
        sdo = 0
        if op == "bit":
            if self.rng.random() < .5:
                self.m = self.rng.getrandbits(1)      # data may still change while the clock is high
            self.ck = 1
            self.hold()
            self.m = m
            self.hold()
            sdo = self.sdo
            self.ck = 0
            self.hold()
        elif op == "sel":
            self.cs = 1
            self.hold()
        else:
            if self.rng.random() < .3 and self.cs:
                self.ck = 1
                self.hold()
            self.cs = 0
            if not self.ck and self.rng.random() < .3:    # deselected for a moment only
                self.hold(self.rng.randrange(1, 4))
                return sdo
            self.hold()
            while self.rng.random() < .3:             # clock pulses for somebody else
                self.m = self.rng.getrandbits(1)
                self.ck = 1
                self.hold()
                self.ck = 0
                self.hold()
            self.ck = 0
            self.hold()
        return sdo


def plan(rng, n, w, count, addr=None):
    """Operation sequences: complete, aborted and oversized transactions."""
    for _ in range(count):
        yield "sel", 0
        k = rng.random()
        full = bits(addr() if addr else rng.getrandbits(n), n) + [rng.getrandbits(1) for _ in range(w)]
        if rng.random() < .2:
            full[n:] = [rng.getrandbits(1)] * w
        if k < .2:
            full = full[:rng.randrange(0, n + 1)]
        elif k < .4:
            full = full[:rng.randrange(n, n + w)]
        elif k < .5:
            full += [rng.getrandbits(1) for _ in range(rng.choice([1, 2, n, n + w]))]
        for b in full:
            yield "bit", b
        yield "des", 0


def run(n, w, half, count, seed):
    rng = random.Random(seed)
    d = SPICommandInterface(command_size=n, word_size=w)
    cs0 = rng.random() < .3
    sim = Sim(d, init=[(d.spi.cs, cs0)])
    acc = {}

    def watch():
        acc["cr"] += sim.peek(d.command_ready)
        acc["wc"] += sim.peek(d.word_complete)
        if sim.peek(d.command_ready):
            acc["cmd"] = bits(sim.peek(d.command), n)
        if sim.peek(d.word_complete):
            acc["wd"] = bits(sim.peek(d.word_received), w)
    h = Host(sim, d.spi, half, rng, watch, int(cs0))
    ev = []

    def op(o, m):
        acc.update(cr=0, wc=0, cmd=[], wd=[])
        ws = rng.getrandbits(w)
        sim.poke(d.word_to_send, ws)
        sdo = h.do(o, m)
        ev.append(dict(op=o, m=m, sdo=sdo, ws=bits(ws, w), idle=sim.peek(d.idle), stall=sim.peek(d.stalled), **acc))
    if cs0:                                           # selected out of reset: not ours until deselected
        for _ in range(rng.randrange(0, 2 * (n + w))):
            op("bit", rng.getrandbits(1))
    op("des", 0)
    for o, m in plan(rng, n, w, count):
        op(o, m)
    return [dict(spec="TSpiCmd", cfg=dict(n=n, w=w), ev=ev, id=f"command n={n} w={w} half={half} seed={seed}")]


def jobs(tier, rng):
    for rep in range(1 if tier == "quick" else 12):
        for n in [1, 2, 7, 8, 9, 16, 33]:
            for w in [1, 2, 8, 13, 32, 40]:
                yield "run", dict(n=n, w=w, half=rng.choice([4, 4, 5, 7, 12]), count=10, seed=rng.getrandbits(30))
