"""T06 OneHotMultiplexer."""
import random
from amaranth import *
from rtlsim import Sim
from amlib.utils import OneHotMultiplexer

MC = [("MCWiring", "MCWiring.cfg")]


class Bus:
    def __init__(self, w):
        self.valid, self.strobe = Signal(), Signal()
        self.a, self.b, self.o, self.p = Signal(16), Signal(3), Signal(w), Signal(5)


def run(n, w, field, fn, cycles, seed):
    rng = random.Random(seed)
    b = (lambda i: i.b) if fn else "b"
    d = OneHotMultiplexer(interface_type=lambda: Bus(w), valid_field=field, mux_signals=["a", b],
                          or_signals=["o"] if not fn else [lambda i: i.o], pass_signals=("p",))
    ins = [Bus(w) for _ in range(n)]
    if fn:
        d.add_interfaces(ins)
    else:
        for i in ins[:-1]:
            d.add_interface(i)
        d.add_input(ins[-1])
    sim = Sim(d)
    ev = []
    for c in range(cycles):
        sel = rng.choice([None] + list(range(n)))
        e = dict(v=[int(k == sel) for k in range(n)], a=[rng.getrandbits(16) for _ in ins], b=[rng.getrandbits(3) for _ in ins],
                 o=[[rng.getrandbits(1) if k == sel or seed & 1 else 0 for _ in range(w)] for k in range(n)], p=rng.getrandbits(5))
        pk = [(d.output.p, e["p"])]
        for k, i in enumerate(ins):
            pk += [(getattr(i, field), e["v"][k]), (i.a, e["a"][k]), (i.b, e["b"][k]), (i.o, sum(x << j for j, x in enumerate(e["o"][k])))]
        q = sim.cycle(pk, dict(qa=d.output.a, qb=d.output.b, qo=d.output.o, **{f"r{k}": i.p for k, i in enumerate(ins)}))
        ev.append(dict(e, qa=q["qa"], qb=q["qb"], qo=[(q["qo"] >> j) & 1 for j in range(w)], r=[q[f"r{k}"] for k in range(n)]))
    return [dict(spec="TOneHot", cfg=dict(w=w), ev=ev, id=f"onehot n={n} w={w} {field} fn={fn} seed={seed}")]


def jobs(tier, rng):
    for _ in range(1 if tier == "quick" else 20):
        for n in [1, 2, 3, 4, 5, 6, 7, 8, 9, rng.randrange(10, 16), 16, 17, rng.randrange(18, 40)]:
            for field in ["valid", "strobe"]:
                yield "run", dict(n=n, w=rng.choice([1, 2, 8]), field=field, fn=rng.getrandbits(1), cycles=300, seed=rng.getrandbits(30))
