"""S01 StreamArbiter."""
import random
from amaranth import *
from rtlsim import Sim, Intern
from amlib.stream import StreamInterface
from amlib.stream.arbiter import StreamArbiter, StreamMultiplexer

MC = [("MCArbiter", "MCArbiter.cfg"), ("MCArbiterG", "MCArbiterG.cfg")]
TOURS = [dict(module="MCArbiterG", cfg="MCArbiterG.cfg", fn="replay")]


def build(kind, n, pw, vw, extra, domain="sync"):
    def st():
        return StreamInterface(payload_width=pw, valid_width=vw, extra_fields=extra)
    if kind == "arb":
        d = StreamArbiter(stream_type=st, domain=domain)
        add, out = d.add_stream, d.source
    else:
        d = StreamMultiplexer(stream_type=st)
        add, out = d.add_input, d.output
    ins = [st() for _ in range(n)]
    for i in ins:
        add(i)
    return d, ins, out


def record(kind, n, pw, vw, extra, stim, name, domain="sync"):
    d, ins, out = build(kind, n, pw, vw, extra, domain)
    m = Module()
    m.submodules.dut = d
    # the multiplexer is purely combinational: give the simulation a clock of its own
    tick = Signal()
    m.d[domain] += tick.eq(~tick)
    sim = Sim(m)
    fields = ["first", "last", "payload"] + [f for f, _ in (extra or [])]
    outs = dict(ov=out.valid)
    for j, f in enumerate(fields):
        outs[f"o{j}"] = out[f]
    if kind == "arb":
        outs["idle"] = d.idle
    for k in range(n):
        outs[f"r{k}"] = ins[k].ready
    ev, nm = [], Intern()
    for v, data, rdy in stim:
        pokes = [(out.ready, rdy)]
        for k in range(n):
            pokes.append((ins[k].valid, v[k]))
            for f, x in zip(fields, data[k]):
                pokes.append((ins[k][f], x))
        o = sim.cycle(pokes, outs, domain)
        e = dict(v=list(v), d=[[nm(y) for y in x] for x in data], rdy=rdy, ov=o["ov"],
                 od=[nm(o[f"o{j}"]) for j in range(len(fields))], r=[o[f"r{k}"] for k in range(n)])
        if kind == "arb":
            e["idle"] = o["idle"]
        ev.append(e)
    return dict(spec="TArbiter" if kind == "arb" else "TMux", cfg=dict(n=n), ev=ev,
                id=f"{kind} n={n} payload={pw} valid_width={vw} extra={extra} {name}")


def data_for(rng, pw, extra):
    return [rng.getrandbits(1), rng.getrandbits(1), rng.getrandbits(pw)] + [rng.getrandbits(w) for _, w in extra or []]


def replay(walks):
    rng = random.Random(1)
    return [record("arb", 3, 8, 1, None,
                   [([i["v1"], i["v2"], i["v3"]], [data_for(rng, 8, None) for _ in range(3)], i["rdy"]) for i in w],
                   f"model behaviour {j}") for j, w in enumerate(walks)]


def bursts(rng, n, pw, vw, extra, cycles, wild):
    """Producers hold valid (and stable data) until accepted and send bursts; `wild` drops the
    discipline and changes everything every cycle.  Yields, expects nothing back: the producer side
    uses the same grant the arbiter gives, known one step later through `granted`."""
    left = [0] * n
    data = [data_for(rng, pw, extra) for _ in range(n)]
    pr, pi = rng.choice([.2, .5, .9, 1]), rng.choice([.02, .1, .4])
    for c in range(cycles):
        if c % 50 == 0:
            pr, pi = rng.choice([.2, .5, .9, 1]), rng.choice([.02, .1, .4])
        for k in range(n):
            if wild:
                left[k] = rng.choice([0, 1])
                data[k] = data_for(rng, pw, extra)
            elif left[k] == 0:
                if rng.random() < pi:
                    left[k] = rng.randrange(1, 8)
                    data[k] = data_for(rng, pw, extra)
            else:
                # time passes; a word is taken now and then
                if rng.random() < pr / 2:
                    left[k] -= 1
                    data[k] = data_for(rng, pw, extra)
        v = [(rng.randrange(1, 1 << vw) if left[k] else 0) for k in range(n)]
        yield v, data, int(rng.random() < pr)


def rand(kind, n, pw, vw, extra, cycles, seed, wild, domain="sync"):
    rng = random.Random(seed)
    return [record(kind, n, pw, vw, extra, bursts(rng, n, pw, vw, extra, cycles, wild),
                   f"{'wild' if wild else 'bursts'} seed={seed}", domain)]


def jobs(tier, rng, kind="arb"):
    reps = 1 if tier == "quick" else 8
    cycles = 500 if tier == "quick" else 3000
    for _ in range(reps):
        for n in [1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 16, 17]:
            for wild in (0, 1):
                extra = rng.choice([None, None, [("tag", 3)], [("a", 1), ("b", 7)]])
                yield "rand", dict(kind=kind, n=n, pw=rng.choice([1, 8, 8, 16, 24, 32, 64]), vw=rng.choice([1, 1, 2, 4]),
                                   extra=extra, cycles=cycles, seed=rng.getrandbits(30), wild=wild,
                                   domain=rng.choice(["sync", "usb"]) if kind == "arb" else "sync")
