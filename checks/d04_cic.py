"""D04 CIC decimator."""
import random
from amlib.dsp.fixedpointcicfilter import FixedPointCICFilter
from rtlsim import Sim

MC = [("MCCic", "MCCicA.cfg"), ("MCCic", "MCCicB.cfg"), ("MCCic", "MCCicC.cfg")]


def pdm(rng, n):
    """One bit streams: constants, tones, sigma-delta of a ramp, noise."""
    out = []
    while len(out) < n:
        k, m = rng.randrange(5), rng.randrange(n // 8 + 1, n // 2 + 2)
        if k == 0:
            out += [rng.choice([-1, 1])] * m
        elif k == 1:
            p = rng.randrange(1, m)
            out += [1 if (i // p) & 1 else -1 for i in range(m)]
        elif k == 2:
            acc = 0
            a, b = rng.uniform(-1, 1), rng.uniform(-1, 1)
            for i in range(m):
                v = a + (b - a) * i / m
                o = 1 if acc >= 0 else -1
                acc += v - o
                out.append(o)
        else:
            out += [rng.choice([-1, 1]) for _ in range(m)]
    return out[:n]


def run(par, n, seed, gate):
    rng = random.Random(seed)
    dut = FixedPointCICFilter(verbose=False, **par)
    sim = Sim(dut)
    ev = []
    for v in pdm(rng, n) + [1] * (par["decimation"] * (par["filter_stage"] * 2 + 2)):
        for en, x in [(0, rng.choice([-1, 1])) for _ in range(gate and rng.choice([1, 1, 2, 5]))] + [(1, v)]:
            o = sim.cycle([(dut.strobe_in, en), (dut.signal_in, x)], dict(out=dut.signal_out, so=dut.strobe_out))
            ev.append({"en": en, "in": x, "out": o["out"], "so": o["so"]})
    for _ in range(6):
        o = sim.cycle([(dut.strobe_in, 0)], dict(out=dut.signal_out, so=dut.strobe_out))
        ev.append({"en": 0, "in": 0, "out": o["out"], "so": o["so"]})
    return [dict(spec="TCic", id=f"{par} seed={seed} gate={gate}",
                 cfg=dict(r=par["decimation"], n=par["filter_stage"], bw=par["bitwidth"]), ev=ev)]


def P(bw, n, r):
    return dict(bitwidth=bw, filter_stage=n, decimation=r)


PARS = [P(18, 4, 12), P(8, 4, 12), P(16, 3, 16), P(8, 2, 8), P(8, 4, 8), P(4, 1, 8), P(12, 3, 5), P(6, 5, 4), P(12, 1, 2),
        P(6, 6, 2), P(8, 3, 10), P(24, 4, 16), P(10, 2, 25)]


def jobs(tier, rng):
    k = 8 if tier == "thorough" else 1
    for p in PARS:
        for gate in (0, 1):
            n = p["decimation"] * (p["filter_stage"] * 3 + 12) * k
            yield "run", dict(par=p, n=n, seed=rng.randrange(10**6), gate=gate)
    for _ in range(4 * k):
        p = P(rng.randrange(3, 20), rng.randrange(1, 6), rng.randrange(2, 17))
        yield "run", dict(par=p, n=p["decimation"] * 20, seed=rng.randrange(10**6), gate=rng.randrange(2))
    # high decimation
    for _ in range(k):
        r = rng.choice([32, 64, rng.randrange(17, 65)])
        yield "run", dict(par=P(rng.randrange(6, 20), 2, r), n=r * 8, seed=rng.randrange(10**6), gate=0)
        r = rng.choice([128, 256, rng.randrange(65, 300)])
        yield "run", dict(par=P(rng.randrange(3, 20), 1, r), n=r * 3, seed=rng.randrange(10**6), gate=0)
