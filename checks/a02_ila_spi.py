"""A02 SyncSerialILA: samples over SPI."""
import random
from amaranth import ClockDomain, Module, Signal, signed
from amlib.debug.ila import SyncSerialILA
from rtlsim import Sim

MC = [("MCIlaSpi", f"MCIlaSpi{k}.cfg") for k in "AB"]
MC_THOROUGH = [("MCIlaSpi", f"MCIlaSpi{k}.cfg") for k in "TU"]


def lsb(v, n):
    return [v >> i & 1 for i in range(n)]


def mksigs(widths):
    return [Signal(w if w > 0 else signed(-w), name=f"s{i}") for i, w in enumerate(widths)]


class Capture:
    """Drives inputs, enable and trigger of an analyzer and records the capture events."""

    def __init__(self, dut, sim, sigs, en, rng):
        self.dut, self.sim, self.sigs, self.en, self.rng = dut, sim, sigs, en, rng
        self.total = sum(len(s) for s in sigs)

    def stim(self, en, trig):
        rng = self.rng
        v = rng.getrandbits(self.total) if rng.random() < .8 else rng.choice([0, (1 << self.total) - 1])
        inp, q = [], v
        for s in self.sigs:
            inp.append((s, q & ((1 << len(s)) - 1)))
            q >>= len(s)
        inp.append((self.dut.trigger, trig))
        if self.en:
            inp.append((self.dut.enable, en))
        return inp, lsb(v, self.total)

    dom = "sync"
    OUT = property(lambda s: dict(complete=s.dut.complete, capturing=s.dut.capturing))

    def cycle(self, en, trig):
        inp, v = self.stim(en, trig)
        o = self.sim.cycle(inp, self.OUT, self.dom)
        return {"op": "cyc", "in": v, "en": en, "trig": trig, **o}

    def capture(self, p, extra=0):
        """Cycles before, trigger, until complete (or given up)."""
        rng, ev = self.rng, []
        for _ in range(2 * p + 6 + rng.randrange(8)):
            ev.append(self.cycle(1, 0))
        ev.append(self.cycle(int(rng.random() < .8), 1))
        ep = rng.choice([.3, .7, 1])
        for k in range(40 * (self.dut.sample_depth + p + 8)):
            trig = rng.random() < .1 and not self.sim.peek(self.dut.complete)
            e = self.cycle(int(rng.random() < ep), int(trig))
            ev.append(e)
            if e["complete"]:
                break
        for _ in range(3 + extra):
            ev.append(self.cycle(int(rng.random() < ep), 0))
        for _ in range(3):
            ev.append(self.cycle(1, 0))
        return ev


def accepted(ev):
    cyc = [e for e in ev if e["op"] == "cyc"]
    for e, f in zip(cyc, cyc[1:] + [dict(capturing=0)]):
        e["acc"] = int(e["trig"] and f["capturing"] and (not e["capturing"] or e["complete"]))
    return ev


def run(p, depth, en, widths, pol, pha, csh, rounds, seed, dom="sync"):
    rng = random.Random(seed)
    sigs = mksigs(widths)
    dut = SyncSerialILA(signals=sigs, sample_depth=depth, samples_pretrigger=p, with_enable=en,
                        clock_polarity=pol, clock_phase=pha, cs_idles_high=csh, **(dict(domain=dom) if dom != "sync" else {}))
    cs0 = int(csh)
    top = Module()
    if dom != "sync":
        setattr(top.domains, dom, ClockDomain(dom, reset_less=False))
    top.submodules.dut = dut
    sim = Sim(top, init=[(dut.spi.sck, pol), (dut.spi.cs, cs0)])
    drv = Capture(dut, sim, sigs, en, rng)
    drv.dom = dom
    spi, ev = dut.spi, []
    w = dut.bits_per_sample

    def hold(n):
        for _ in range(n):
            sim.cycle([(dut.trigger, 0), (spi.sdi, rng.getrandbits(1))], {}, dom)
    for _ in range(rounds):
        ev += drv.capture(p)
        for _ in range(rng.choice([1, 2])):
            half = rng.choice([5, 5, 6, 9])
            nbits = w * min(depth + 1, rng.choice([depth, depth, depth + 1, 2, 3])) + rng.choice([0, 0, 1, w // 2])
            nbits = min(nbits, 3200)
            hold(6 + rng.randrange(12))
            sim.cycle([(spi.cs, 1 - cs0)], {}, dom)
            ev.append(dict(op="sel"))
            hold(half - 1 + rng.randrange(3))
            for _ in range(nbits):
                # leading edge
                b0 = sim.cycle([(spi.sck, 1 - pol)], dict(b=spi.sdo), dom)["b"]
                hold(half - 1)
                b1 = sim.cycle([(spi.sck, pol)], dict(b=spi.sdo), dom)["b"]
                hold(half - 1 + (rng.randrange(3) if rng.random() < .05 else 0))
                ev.append(dict(op="bit", b=b1 if pha else b0))
            hold(half)
            sim.cycle([(spi.cs, cs0)], {}, dom)
            ev.append(dict(op="des"))
            hold(6)
            if rng.random() < .3:      # clock for another device
                for _ in range(rng.randrange(1, 9)):
                    sim.cycle([(spi.sck, 1 - pol)], {}, dom)
                    hold(4)
                    sim.cycle([(spi.sck, pol)], {}, dom)
                    hold(4)
    return [dict(spec="TIlaSpi", id=f"spi pre={p} depth={depth} enable={en} widths={widths} pol={pol} pha={pha} csh={csh} {dom} seed={seed}",
                 cfg=dict(p=p, depth=depth, en=en, w=32 << max(0, (sum(map(abs, widths)) - 1) // 32).bit_length()), ev=accepted(ev))]


def jobs(tier, rng):
    k = 6 if tier == "thorough" else 1
    for _ in range(k):
        for mode in range(8):
            p = rng.choice([0, 1, 2, 3, 5, 8])
            yield "run", dict(p=p, depth=rng.choice([2, 3, 5, 8, 16]), en=bool(rng.getrandbits(1)),
                              widths=[rng.choice([1, 3, -4, 8, 12]) for _ in range(rng.randrange(1, 4))] + rng.choice([[], [], [20]]),
                              pol=mode & 1, pha=mode >> 1 & 1, csh=bool(mode >> 2), rounds=2 * k, seed=rng.randrange(10**6), dom=rng.choice(["sync", "sync", "cap"]))
        yield "run", dict(p=rng.choice([0, 9, 17, 33]), depth=rng.choice([32, 33, 64, 65]), en=bool(rng.getrandbits(1)), widths=[5, -3], pol=rng.getrandbits(1),
                          pha=rng.getrandbits(1), csh=bool(rng.getrandbits(1)), rounds=1, seed=rng.randrange(10**6), dom=rng.choice(["sync", "cap"]))
        for widths in ([32], [33], [1], [40, 30], [rng.choice([63, 64, 65, 100, 129])]):
            yield "run", dict(p=rng.choice([0, 1, 4]), depth=rng.choice([2, 4, 5]), en=False, widths=widths, pol=rng.getrandbits(1),
                              pha=rng.getrandbits(1), csh=bool(rng.getrandbits(1)), rounds=1, seed=rng.randrange(10**6))
