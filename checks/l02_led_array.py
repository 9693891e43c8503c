"""L02 SerialLEDArray (MAX7219 chain)."""
import random
from amaranth import Elaboratable, Module, Record
from rtlsim import Sim
from amlib.io.max7219 import SerialLEDArray, default_init_sequence

MC = [("MCSpi", "MCSpi0.cfg"), ("MCSpi", "MCSpi1.cfg")]


class Wired(Elaboratable):
    """The array connected to a platform resource (whose cs is 1 while selected)."""
    def __init__(self, dut):
        self.dut, self.res = dut, Record([("copi", 1), ("clk", 1), ("cs", 1)])

    def elaborate(self, platform):
        m = Module()
        m.submodules.dut = self.dut
        m.d.comb += self.dut.connect_to_resource(self.res)
        return m


def run(mods, div, delay, ninit, frames, seed, wired=False):
    rng = random.Random(seed)
    if ninit == 5:
        init, kw = [[int(a), b] for a, b in default_init_sequence], {}
    else:
        init = [[rng.getrandbits(8), rng.getrandbits(8)] for _ in range(ninit)]
        kw = dict(init_sequence=init)
    d = SerialLEDArray(divisor=div, init_delay=delay, no_modules=mods, **kw)
    top = Wired(d) if wired else d
    sim = Sim(top)
    pins = (top.res.cs, top.res.clk, top.res.copi) if wired else (d.spi_bus_out.cs, d.spi_bus_out.sck, d.spi_bus_out.sdo)
    slack = 4 * div + 16
    ev, psel, pck, bits, t, last, nfr, psdo = [], 0, 0, [], 0, 0, 0, 0
    limit = delay + (frames + 2) * (16 * mods + 8) * div + 1000
    while nfr < frames and t < limit:
        upd = rng.random() < .003
        for k in range(8 * mods):
            if upd or rng.random() < .001:
                sim.poke(d.digits_in[k], rng.getrandbits(8))
        sim.poke(d.valid_in, upd)
        sim.poke(d.spi_bus_out.sdi, rng.getrandbits(1))
        sim.settle()
        cs, ck, sdo = map(sim.peek, pins)
        sel = cs if wired else 1 - cs
        if sel and not psel:
            ev.append(dict(op="beg", t=t, gap=t - last))
            bits = []
        if ck and not pck and psel:
            bits.append(psdo)
        if psel and not sel:
            ev.append(dict(op="end", bits=bits))
            nfr, last = nfr + 1, t
        if upd:
            ev.append(dict(op="upd", d=[sim.peek(x) for x in d.digits_in]))
        psel, pck, psdo = sel, ck, sdo
        sim.edge()
        t += 1
    tr = dict(spec="TLedArray", cfg=dict(mods=mods, init=init, delay=delay, slack=slack), ev=ev,
              id=f"led array mods={mods} div={div} delay={delay} ninit={ninit} wired={wired} seed={seed}")
    if nfr < frames:
        tr["bad"] = "the display is not refreshed forever"
    return [tr]


def jobs(tier, rng):
    for rep in range(1 if tier == "quick" else 8):
        for mods, ninit in [(1, 5), (2, 5), (1, 3), (3, 5), (1, 8), (2, 12), (1, 1), (4, 5), (1, 7), (1, rng.choice([15, 16, 17, 31, 32, 33])), (rng.choice([5, 6, 7, 8]), 2), (rng.choice([9, 16, 17]), 1)]:
            yield "run", dict(mods=mods, div=rng.choice([12, 14, 16, 20]), delay=rng.choice([2, 20, 77, 1000]), ninit=ninit,
                              frames=ninit + (40 if mods < 3 else 20 if mods < 9 else 10), seed=rng.getrandbits(30), wired=ninit in (3, 7))
