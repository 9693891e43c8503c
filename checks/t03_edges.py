"""T03 edge detectors, past values, strobe stretching."""
import random
from amaranth import *
from rtlsim import Sim
import amlib.utils as U

MC = [("MCEdges", "MCEdges.cfg")]


def run(kind, impl, n, width, domain, cycles, seed):
    rng = random.Random(seed)
    m = Module()
    x = Signal(width)
    tick = Signal()
    m.d[domain] += tick.eq(~tick)
    if impl == "EdgeToPulse":
        m.submodules.e = e = U.EdgeToPulse()
        m.d.comb += e.edge_in.eq(x)
        y = e.pulse_out
    elif impl == "helper":
        f = dict(rise=U.rising_edge_detected, fall=U.falling_edge_detected, any=U.any_edge_detected, past=U.past_value_of)[kind]
        y = f(m, x, domain=domain)
    else:
        out = Signal() if rng.random() < .5 else None
        y = U.stretch_strobe_signal(m, x, to_cycles=n, output=out, domain=None if domain == "sync" else m.d[domain],
                                    allow_delay=kind == "stretch_delay")
    sim = Sim(m)
    ev = []
    p = .5
    for c in range(cycles):
        if c % 50 == 0:
            p = rng.choice([.02, .1, .5, .9])
        v = rng.getrandbits(width) if width > 1 and rng.random() < .6 else (int(rng.random() < p) if width == 1 else (ev[-1]["x"] if ev else 0))
        o = sim.cycle([(x, v)], dict(y=y), domain)
        ev.append(dict(x=v, y=o["y"]))
    return [dict(spec="TEdges", cfg=dict(kind=kind, n=n), ev=ev, id=f"{impl} {kind} n={n} width={width} {domain} seed={seed}")]


def jobs(tier, rng):
    cycles = 700 if tier == "quick" else 10000
    for _ in range(1 if tier == "quick" else 4):
        s = lambda: rng.getrandbits(30)
        yield "run", dict(kind="rise", impl="EdgeToPulse", n=0, width=1, domain="sync", cycles=cycles, seed=s())
        for kind in ["rise", "fall", "any", "past"]:
            for dom in ["sync", "usb"]:
                for width in ([1] if kind in ("rise", "fall") else [1, 2, 8, 24]):
                    yield "run", dict(kind=kind, impl="helper", n=0, width=width, domain=dom, cycles=cycles, seed=s())
        for n in [1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33, 64]:
            for kind in ["stretch", "stretch_delay"]:
                yield "run", dict(kind=kind, impl="stretch", n=n, width=1, domain=rng.choice(["sync", "usb"]), cycles=cycles, seed=s())
