"""F01 TransactionalizedFIFO."""
import random
from rtlsim import Sim, Intern
from amaranth.hdl.xfrm import DomainRenamer
from amlib.utils.fifo import TransactionalizedFIFO

MC = [("MCFifo", "MCFifo.cfg")]
MC_THOROUGH = [("MCFifo", "MCFifoT.cfg")]
TOURS = [dict(module="MCFifo", cfg="MCFifoG.cfg", fn="replay", kwargs=dict(depth=2))]


def record(depth, width, stim, name, domain="sync"):
    d = TransactionalizedFIFO(width=width, depth=depth, domain=domain)
    sim = Sim(d)
    ins = dict(we=d.write_en, wc=d.write_commit, wd=d.write_discard, d=d.write_data,
               re=d.read_en, rc=d.read_commit, rd=d.read_discard)
    outs = dict(em=d.empty, fu=d.full, sp=d.space_available, qd=d.read_data)
    ev, nm = [], Intern()
    for i in stim:
        o = sim.cycle([(ins[k], i[k]) for k in ins], outs, domain)
        ev.append({**{k: i[k] for k in ins}, **o, "d": nm(i["d"]), "qd": nm(o["qd"])})
    return dict(spec="TFifo", id=f"fifo depth={depth} width={width} {name}", cfg=dict(depth=depth), ev=ev)


def replay(depth, walks):
    return [record(depth, 1, w, f"model behaviour {n}") for n, w in enumerate(walks)]


def rand_stim(rng, width, n, long=60):
    """Random port commands in phases with different rates, so the FIFO is run full, empty,
    with long open transactions and with frequent rewinds."""
    i = 0
    while i < n:
        p = [rng.choice([0, .1, .5, .9, 1]) for _ in range(2)]
        c = [rng.choice([0, 0, .05, .3, 1]) for _ in range(2)]
        x = [rng.choice([0, 0, 0, .03, .2, .5]) for _ in range(2)]
        for _ in range(rng.randrange(5, long)):
            wc, rc = rng.random() < c[0], rng.random() < c[1]
            wd, rd = (not wc) and rng.random() < x[0], (not rc) and rng.random() < x[1]
            yield dict(we=int(rng.random() < p[0]), re=int(rng.random() < p[1]), wc=int(wc), rc=int(rc),
                       wd=int(wd), rd=int(rd), d=rng.getrandbits(width))
            i += 1


def rand(depth, width, n, seed, domain):
    rng = random.Random(seed)
    return [record(depth, width, rand_stim(rng, width, n, max(60, 3 * depth)), f"random {seed}", domain)]


def jobs(tier, rng):
    n = 800 if tier == "quick" else 12000
    depths = [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 63, 64, 100]
    for k in range(1 if tier == "quick" else 6):
        for depth in depths + [rng.randrange(1, 70) for _ in range(5)] + [128, 256, rng.choice([127, 129, 255, 257, 300])]:
            yield "rand", dict(depth=depth, width=rng.choice([1, 4, 8, 8, 16, 24, 32, 33, 64]),
                               n=n + 10 * depth, seed=rng.getrandbits(30), domain=rng.choice(["sync", "sync", "usb"]))
