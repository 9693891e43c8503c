"""T07 synchronize(): crossing signals and records into another clock domain."""
import random
from amaranth import *
from amaranth.hdl.rec import DIR_FANIN, DIR_FANOUT, DIR_NONE, Record
from rtlsim import Sim
from amlib.utils import synchronize

MC = [("MCWiring", "MCWiring.cfg")]


def layout(rng, depth=0):
    l = []
    for i in range(rng.randint(1, 4)):
        if depth < 2 and rng.random() < .3:
            l.append((f"r{depth}{i}", layout(rng, depth + 1)))
        else:
            l.append((f"f{depth}{i}", rng.choice([1, 1, 2, 8]), rng.choice([DIR_FANIN, DIR_NONE, DIR_FANOUT])))
    return l


def leaves(rec):
    for name, shape, direction in rec.layout:
        if isinstance(rec[name], Record):
            yield from leaves(rec[name])
        else:
            yield rec[name], direction


class Custom:
    def __init__(self, sig):
        self.sig, self.called = sig, 0

    def _synchronize_(self, m, output, o_domain, stages):
        synchronize(m, self.sig, output=output, o_domain=o_domain, stages=stages)


def run(kind, stages, given, domain, cycles, seed):
    rng = random.Random(seed)
    m = Module()
    tick = {x: Signal(name="tick_" + x) for x in ("sync", "fast", "usb")}
    for k, t in tick.items():
        m.d[k] += t.eq(~t)
    kw = dict(stages=stages) if stages != 2 or rng.random() < .5 else {}
    if domain != "sync" or rng.random() < .5:
        kw["o_domain"] = domain
    if kind == "record":
        lay = layout(rng)
        src = Record(lay)
        out = Record.like(src) if given else None
        out = synchronize(m, src, output=out, **kw)
        both = list(zip(leaves(src), leaves(out)))
        ins = [(a, b) for (a, dr), (b, _) in both if dr != DIR_FANOUT]
        outs = [(a, b) for (a, dr), (b, _) in both if dr == DIR_FANOUT]
    else:
        src = Signal(rng.choice([1, 4, 13]))
        out = Signal.like(src) if given or kind == "custom" else None
        out = synchronize(m, Custom(src) if kind == "custom" else src, output=out, **kw)
        ins, outs = [(src, out)], []
    sim = Sim(m)
    ev = []
    for _ in range(cycles):
        doms = [x for x in tick if rng.random() < .5]
        i = [rng.getrandbits(len(a)) for a, _ in ins]
        if ev and rng.random() < .5:
            i = ev[-1]["i"]
        o = [rng.getrandbits(len(b)) for _, b in outs]
        for (a, _), v in zip(ins, i):
            sim.poke(a, v)
        for (_, b), v in zip(outs, o):
            sim.poke(b, v)
        sim.settle()
        q = [sim.peek(b) for _, b in ins]
        bo = [sim.peek(a) for a, _ in outs]
        if doms:
            sim.edge(*doms)
        ev.append(dict(i=i, o=o, q=q, bo=bo, edge=int(domain in doms)))
    return [dict(spec="TSync", cfg=dict(stages=stages, nin=len(ins)), ev=ev, id=f"synchronize {kind} stages={stages} given={given} domain={domain} seed={seed}")]


def jobs(tier, rng):
    for _ in range(1 if tier == "quick" else 20):
        for kind in ["signal", "record", "record", "record", "custom"]:
            for stages in [2, 3, 4]:
                for given in (0, 1):
                    yield "run", dict(kind=kind, stages=stages, given=given, domain=rng.choice(["sync", "fast", "usb"]), cycles=200, seed=rng.getrandbits(30))
