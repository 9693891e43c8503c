"""S06 StreamSerializer."""
import random
from rtlsim import Sim, Intern
from amlib.stream.generator import StreamSerializer

MC = [("MCSer", "MCSer.cfg")]
TOURS = [dict(module="MCSer", cfg="MCSer.cfg", fn="replay")]


def record(n, width, mlw, stim, name, domain="sync"):
    d = StreamSerializer(n, domain=domain, data_width=width, max_length_width=mlw)
    sim = Sim(d)
    outs = dict(v=d.stream.valid, f=d.stream.first, l=d.stream.last, p=d.stream.payload, done=d.done)
    ev, nm = [], Intern()
    o = dict(v=0, done=0)
    busy = False
    g = stim(lambda: busy)
    for start, data, ml, rdy in g:
        pokes = [(d.start, start), (d.stream.ready, rdy)] + list(zip(d.data, data))
        if mlw:
            pokes.append((d.max_length, ml))
        o = sim.cycle(pokes, outs, domain)
        if not busy:
            busy = bool(start and (not mlw or ml > 0))
        elif o["done"]:
            busy = False
        ev.append(dict(start=start, d=[nm(x) for x in data], ml=ml, rdy=rdy, **o) | dict(p=nm(o["p"])))
    return dict(spec="TSer", cfg=dict(n=n, hasmax=int(bool(mlw))), ev=ev, id=f"serializer n={n} width={width} mlw={mlw} {name}")


def replay(walks):
    return [record(3, 8, 3, lambda busy, w=w: ((i["start"], [17, 18, 19], i["ml"], i["rdy"]) for i in w), f"model behaviour {j}")
            for j, w in enumerate(walks)]


def run(n, width, mlw, domain, cycles, seed):
    rng = random.Random(seed)

    def stim(busy):
        ml, pr, ps = 1, 1, 1
        data = [rng.getrandbits(width) for _ in range(n)]
        for c in range(cycles):
            if c % 40 == 0:
                pr, ps = rng.choice([.1, .5, .9, 1, 1]), rng.choice([.05, .5, 1])
            if not busy():
                data = [rng.getrandbits(width) for _ in range(n)]
                if mlw:
                    ml = min((1 << mlw) - 1, rng.choice([0, 1, n - 1, n, n + 1, rng.randrange(n + 3), 1000]))
            yield int(rng.random() < ps), data, ml, int(rng.random() < pr)
    return [record(n, width, mlw, stim, f"seed={seed}", domain)]


def jobs(tier, rng):
    for _ in range(1 if tier == "quick" else 8):
        for n in [1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 32, 33, rng.choice([64, 65, 70])]:
            for mlw in (None, n.bit_length(), 8):
                yield "run", dict(n=n, width=rng.choice([1, 8, 8, 13, 24, 32, 40]), mlw=mlw, domain=rng.choice(["sync", "usb"]),
                                  cycles=500 if tier == "quick" else 3000, seed=rng.getrandbits(30))
