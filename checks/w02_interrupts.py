"""W02 EventSource / InterruptSource: every event mode, against the event/pending/enable model."""
import random
from rtlsim import Sim
from amlib.soc.event import EventSource, InterruptSource

MC = [("MCIrq", "MCIrq.cfg")]


def run(modes, n, seed):
    r = random.Random(f"w02-{seed}")
    evs = [EventSource(mode=m, name=f"e{i}") for i, m in enumerate(modes)]
    d = InterruptSource(evs, name="irqs")
    k = len(modes)
    b0 = [r.getrandbits(1) for _ in modes]
    sim = Sim(d, init=[(e.stb, b) for e, b in zip(evs, b0)])
    outs = dict(status=d.status.r_data, pend=d.pending.r_data, en=d.enable.r_data, irq=d.irq)
    bits = lambda v: [(v >> i) & 1 for i in range(k)]
    ev, stb = [], b0
    lively, pc, pe = r.choice([.1, .3, .6]), r.choice([.05, .3, .6]), r.choice([.05, .3])
    for t in range(n):
        if t:
            stb = [x ^ (r.random() < lively) for x in stb]
        pw, pd = int(r.random() < pc), r.choice([0, (1 << k) - 1, 1 << r.randrange(k), r.getrandbits(k)])
        ew, ed = int(r.random() < pe), r.choice([0, (1 << k) - 1, 1 << r.randrange(k), r.getrandbits(k)])
        o = sim.cycle([(e.stb, b) for e, b in zip(evs, stb)] +
                      [(d.pending.w_stb, pw), (d.pending.w_data, pd), (d.enable.w_stb, ew), (d.enable.w_data, ed)], outs)
        ev.append(dict(stb=[int(x) for x in stb], pw=pw, pd=bits(pd), ew=ew, ed=bits(ed), irq=o["irq"],
                       **{f: bits(o[f]) for f in ("status", "pend", "en")}))
    return [dict(spec="TIrq", cfg=dict(modes=modes), ev=ev, id=f"irq modes={','.join(modes)} seed={seed}")]


def wrong(_):
    bad = None
    for f, exc in [(lambda: EventSource(mode="edge", name="x"), ValueError), (lambda: EventSource(mode="rise", name=3), TypeError),
                   (lambda: InterruptSource([1], name="x"), TypeError), (lambda: InterruptSource([], name=1), TypeError)]:
        try:
            f()
            bad = "a wrong parameter is accepted"
        except exc:
            pass
    e = EventSource(mode="fall", name="abc")
    if (e.name, e.mode) != ("abc", "fall"):
        bad = "event source does not keep its parameters"
    return [dict(spec="TIrq", cfg=dict(modes=["rise"]), ev=[], id="irq parameters", **(dict(bad=bad) if bad else {}))]


def jobs(tier, rng):
    yield "wrong", dict(_=0)
    M = ("level", "rise", "fall")
    sets = [[m] for m in M] + [list(M), ["fall", "level", "rise"], ["rise"] * 3, ["level", "rise"], ["fall", "fall"]]
    for i in range(24 if tier == "quick" else 300):
        s = sets[i] if i < len(sets) else [rng.choice(M) for _ in range(rng.randrange(1, 9))]
        yield "run", dict(modes=s, n=600 if tier == "quick" else 3000, seed=rng.getrandbits(30))
