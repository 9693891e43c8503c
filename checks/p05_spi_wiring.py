"""P05 SPIMultiplexer, connect_to_resource."""
import random
from amaranth import *
from rtlsim import Sim
from amlib.io.spi import *
from amlib.io.max7219 import SerialLEDArray


def run(n, cycles, seed):
    rng = random.Random(seed)
    buses = [SPIDeviceBus() for _ in range(n)]
    d = SPIMultiplexer(buses)
    sim = Sim(d)
    ev = []
    for _ in range(cycles):
        sel = rng.choice([None] + list(range(n)))
        i = dict(cs=[int(k == sel) for k in range(n)], sdo=[rng.getrandbits(1) for _ in buses], sck=rng.getrandbits(1), sdi=rng.getrandbits(1))
        pk = [(d.shared_lines.sck, i["sck"]), (d.shared_lines.sdi, i["sdi"])]
        for k, b in enumerate(buses):
            pk += [(b.cs, i["cs"][k]), (b.sdo, i["sdo"][k])]
        o = sim.cycle(pk, dict(so=d.shared_lines.sdo, **{f"c{k}": b.sck for k, b in enumerate(buses)}, **{f"d{k}": b.sdi for k, b in enumerate(buses)}))
        ev.append(dict(i, so=o["so"], ck=[o[f"c{k}"] for k in range(n)], di=[o[f"d{k}"] for k in range(n)]))
    return [dict(spec="TSpiMux", cfg={}, ev=ev, id=f"mux n={n} seed={seed}")]


def pins(kind, csh):
    res = Record([("copi", 1), ("cipo", 1), ("clk", 1), ("cs", 1)])
    args = dict(cs_idles_high=bool(csh))
    d = dict(ctl=lambda: SPIControllerInterface(divisor=12, **args), dev=lambda: SPIDeviceInterface(**args),
             cmd=SPICommandInterface, reg=SPIRegisterInterface, led=lambda: SerialLEDArray(divisor=12, init_delay=20))[kind]()
    spi = d.spi_bus_out if kind == "led" else d.spi
    ctl = kind in ("ctl", "led")
    inv = csh if kind in ("ctl", "dev") else int(kind == "led")
    m = Module()
    m.d.comb += d.connect_to_resource(res)      # only the connections are under test: the bus is driven from outside
    m.d.sync += Signal().eq(1)
    sim = Sim(m)
    ev = []
    for v in range(64):
        r = [(v >> i) & 1 for i in range(4)]
        ins = dict(sdo=(spi.sdo, r[0]))
        if ctl:
            ins.update(cipo=(res.cipo, r[1]), sck=(spi.sck, r[2]), cs=(spi.cs, r[3]))
        else:
            ins.update(copi=(res.copi, r[1]), clk=(res.clk, r[2]), pcs=(res.cs, r[3]))
        o = sim.cycle(list(ins.values()), dict(copi=res.copi, cipo=res.cipo, clk=res.clk, pcs=res.cs, sck=spi.sck, sdi=spi.sdi, sdo=spi.sdo, cs=spi.cs))
        if kind == "led":
            o["sdi"] = o["cipo"] = 0            # write only
        ev.append(o)
    return [dict(spec="TSpiPin", cfg=dict(side="ctl" if ctl else "dev", inv=inv), ev=ev, id=f"pins {kind} csh={csh}")]


def jobs(tier, rng):
    for n in [1, 2, 3, 5, 8]:
        for _ in range(2 if tier == "quick" else 20):
            yield "run", dict(n=n, cycles=200, seed=rng.getrandbits(30))
    for kind in ["ctl", "dev", "cmd", "reg", "led"]:
        for csh in (0, 1):
            yield "pins", dict(kind=kind, csh=csh)
