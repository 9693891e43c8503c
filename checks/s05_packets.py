"""S05 PacketListStreamer."""
import random
from rtlsim import Sim, Intern
from amlib.stream import StreamInterface
from amlib.stream.generator import PacketListStreamer

MC = [("MCPkt", "MCPkt.cfg")]


def run(lens, width, cycles, seed):
    rng = random.Random(seed)
    packets = [[rng.getrandbits(width) for _ in range(n)] for n in lens]
    d = PacketListStreamer([bytes(p) if width == 8 and rng.random() < .5 else list(p) for p in packets],
                           data_width=None if width == 8 else width)
    sim = Sim(d)
    outs = dict(v=d.stream.valid, f=d.stream.first, l=d.stream.last, p=d.stream.payload, done=d.done)
    ev, nm = [], Intern()
    pr = ps = 1
    for c in range(cycles):
        if c % 60 == 0:
            pr, ps = rng.choice([.1, .5, .9, 1, 1]), rng.choice([0, .05, .5, 1])
        start, rdy = int(rng.random() < ps), int(rng.random() < pr)
        o = sim.cycle([(d.start, start), (d.stream.ready, rdy)], outs)
        ev.append(dict(start=start, rdy=rdy, **o) | dict(p=nm(o["p"])))
    return [dict(spec="TPkt", cfg=dict(packets=[[nm(x) for x in p] for p in packets], gap=8), ev=ev, id=f"packets lens={lens} width={width} seed={seed}")]


def jobs(tier, rng):
    fixed = [[1], [2], [3], [4], [1, 1], [2, 2], [4, 4], [8], [7, 1], [5, 3], [1, 1, 1, 1], [3, 5, 8], [16], [15, 1], [1, 15],
             [4, 4, 1], [2, 3, 4], [31, 1], [33], [1, 2, 3, 4, 5, 6, 7]]
    for k in range(1 if tier == "quick" else 8):
        for lens in fixed + [[rng.choice([100, 128, 129])], [1] * rng.choice([16, 17, 20]), [rng.randrange(1, 150) for _ in range(3)], [260, 1, 3]] + [[rng.randrange(1, 12) for _ in range(rng.randrange(1, 9))] for _ in range(10)]:
            yield "run", dict(lens=lens, width=rng.choice([8, 8, 8, 16, 4, 24, 32, 40]), seed=rng.getrandbits(30),
                              cycles=(500 if tier == "quick" else 2000) + 12 * sum(lens))
