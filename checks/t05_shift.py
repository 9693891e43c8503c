"""T05 shift registers, NRZI encoder, LFSR."""
import random
from rtlsim import Sim
from amlib.utils import InputShiftRegister, OutputShiftRegister, NRZIEncoder, LinearFeedbackShiftRegister

MC = [("MCShift", "MCShift.cfg")]


def bits(v, n):
    return [(v >> i) & 1 for i in range(n)]


def inp(depth, cycles, seed):
    rng = random.Random(seed)
    d = InputShiftRegister(depth)
    sim = Sim(d)
    ev = []
    for c in range(cycles):
        if c % 50 == 0:
            pe, pc = rng.choice([.2, .9, 1]), rng.choice([0, 0, .05, .3])
        i = dict(en=int(rng.random() < pe), b=rng.getrandbits(1), clr=int(rng.random() < pc))
        o = sim.cycle([(d.enable_in, i["en"]), (d.bit_in, i["b"]), (d.clear_in, i["clr"])], dict(q=d.value_out))
        ev.append(dict(i, q=bits(o["q"], depth)))
    return [dict(spec="TShIn", cfg=dict(depth=depth), ev=ev, id=f"shift-in depth={depth} seed={seed}")]


def out(depth, rot, cycles, seed):
    rng = random.Random(seed)
    d = OutputShiftRegister(depth, rotate=bool(rot))
    sim = Sim(d)
    ev = []
    for c in range(cycles):
        if c % 50 == 0:
            pe, pw = rng.choice([.2, .9, 1]), rng.choice([0, .02, .1, .3])
        v = rng.getrandbits(depth)
        i = dict(en=int(rng.random() < pe), we=int(rng.random() < pw))
        o = sim.cycle([(d.enable_in, i["en"]), (d.we_in, i["we"]), (d.value_in, v)], dict(q=d.bit_out))
        ev.append(dict(i, d=bits(v, depth), q=o["q"]))
    return [dict(spec="TShOut", cfg=dict(depth=depth, rot=rot), ev=ev, id=f"shift-out depth={depth} rotate={rot} seed={seed}")]


def nrzi(cycles, seed):
    rng = random.Random(seed)
    d = NRZIEncoder()
    sim = Sim(d)
    ev = []
    for _ in range(cycles):
        b = rng.getrandbits(1)
        ev.append(dict(d=b, y=sim.cycle([(d.data_in, b)], dict(y=d.nrzi_out))["y"]))
    return [dict(spec="TNrzi", cfg=dict(x=0), ev=ev, id=f"nrzi seed={seed}")]


def lfsr(degree, taps, reset, limit):
    d = LinearFeedbackShiftRegister(degree, taps, reset=reset)
    soft = []
    for v in d.generate():
        soft.append(v)
        if len(soft) > limit:
            break
    full = len(soft) <= limit
    sim = Sim(d)
    ev = []
    n = len(soft) if full else limit
    for k in range(n + (5 if full else 0)):
        q = sim.cycle([], dict(q=d.value))["q"]
        g = bits(soft[k], degree) if k < len(soft) else []
        ev.append(dict(q=bits(q, degree), g=g, end=int(full and k == n - 1)))
    return [dict(spec="TLfsr", cfg=dict(taps=list(taps), reset=bits(reset, degree)), ev=ev, id=f"lfsr {degree} {taps} reset={reset}")]


LFSRS = [(2, (2, 1)), (3, (3, 2)), (4, (4, 3)), (5, (5, 3)), (6, (6, 5)), (7, (7, 6)), (8, (8, 6, 5, 4)), (9, (9, 5)), (10, (10, 7)),
         (16, (16, 14, 13, 11)), (24, (24, 23, 22, 17))]


def jobs(tier, rng):
    for _ in range(1 if tier == "quick" else 6):
        s = lambda: rng.getrandbits(30)
        for depth in [1, 2, 3, 5, 7, 8, 9, 16, 24, 32, rng.choice([31, 33, 40, 64, 65, 128])]:
            yield "inp", dict(depth=depth, cycles=500, seed=s())
        for depth in [2, 3, 5, 7, 8, 9, 16, 24, 32, rng.choice([31, 33, 40, 64, 65, 128])]:
            for rot in (0, 1):
                yield "out", dict(depth=depth, rot=rot, cycles=500, seed=s())
        yield "nrzi", dict(cycles=1000, seed=s())
        for deg, taps in LFSRS:
            for reset in {1, (1 << deg) - 1, rng.randrange(1, 1 << deg)}:
                yield "lfsr", dict(degree=deg, taps=taps, reset=reset, limit=600 if tier == "quick" else 70000)
