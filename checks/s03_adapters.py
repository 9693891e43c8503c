"""S03 stream links and stream<->FIFO adapters."""
import random
from amaranth import *
from amaranth.lib.fifo import SyncFIFO, SyncFIFOBuffered
from rtlsim import Sim, Intern
from amlib.stream import StreamInterface, connect_fifo_to_stream, connect_stream_to_fifo

MC = [("MCAdapt", "MCAdapt.cfg")]


def link(mode, omit, extra, pw, vw, cycles, seed):
    rng = random.Random(seed)
    mk = lambda: StreamInterface(payload_width=pw, valid_width=vw, extra_fields=extra)
    src, dst = mk(), mk()
    m = Module()
    tick = Signal()
    m.d.sync += tick.eq(~tick)
    om = set(omit) if omit else None
    if mode == "attach":
        m.d.comb += src.attach(dst, omit=om)
    elif mode == "connect":
        m.d.comb += src.connect(dst, omit=om)
    elif mode == "stream_eq":
        m.d.comb += dst.stream_eq(src, omit=om)
    elif mode == "tap":
        m.d.comb += dst.tap(src)
    elif mode == "tap_ready":
        m.d.comb += dst.tap(src, tap_ready=True)
    fields = ["valid", "first", "last", "payload"] + [f for f, _ in extra or []]
    sim = Sim(m)
    outs = {f"d{j}": dst[f] for j, f in enumerate(fields)}
    outs.update(sr=src.ready, dr=dst.ready)
    if mode == "tap_ready":
        rdy = "fwd"
    elif mode == "tap" or "ready" in (omit or ()):
        rdy = "none"
    else:
        rdy = "back"
    ev, nm = [], Intern()
    for _ in range(cycles):
        vals = [rng.getrandbits(len(src[f])) for f in fields]
        xr = rng.getrandbits(1)
        pokes = [(src[f], v) for f, v in zip(fields, vals)]
        pokes.append((dst.ready if rdy == "back" else src.ready, xr))
        o = sim.cycle(pokes, outs)
        ev.append(dict(src=[nm(x) for x in vals], dst=[nm(o[f"d{j}"]) for j in range(len(fields))], sr=o["sr"], dr=o["dr"], xr=xr))
    keep = [int(f not in (omit or ())) for f in fields]
    return [dict(spec="TLink", cfg=dict(keep=keep, rdy=rdy), ev=ev, id=f"link {mode} omit={omit} extra={extra} pw={pw} vw={vw}")]


def chain(kind, depth, pw, fl, cycles, seed, kw):
    rng = random.Random(seed)
    a, b = StreamInterface(payload_width=pw), StreamInterface(payload_width=pw)
    fifo = (SyncFIFO if kind == "sync" else SyncFIFOBuffered)(width=pw + 2, depth=depth)
    m = Module()
    m.submodules.fifo = fifo
    # the marks may sit anywhere above the payload
    fb, lb = (pw, pw + 1) if kw else (pw + 1, pw)
    # 0: no marks, 1: both, 2: the first mark only, 3: the last mark only
    opt = {0: {}, 1: dict(firstBit=fb, lastBit=lb), 2: dict(firstBit=fb), 3: dict(lastBit=lb)}[fl]
    m.d.comb += connect_stream_to_fifo(a, fifo, **opt)
    m.d.comb += connect_fifo_to_stream(fifo, b, **opt)
    sim = Sim(m)
    outs = dict(rdy=a.ready, ov=b.valid, op=b.data if seed & 1 else b.payload, of=b.first, ol=b.last)
    ev, nm = [], Intern()
    hold = None
    for c in range(cycles):
        if c % 40 == 0:
            pi, po = rng.choice([.1, .5, 1]), rng.choice([0, .1, .5, 1])
        if hold is None and rng.random() < pi:
            hold = dict(p=rng.getrandbits(pw), f=rng.getrandbits(1), l=rng.getrandbits(1))
        x = hold or dict(p=rng.getrandbits(pw), f=rng.getrandbits(1), l=rng.getrandbits(1))
        v, ordy = int(hold is not None), int(rng.random() < po)
        o = sim.cycle([(a.valid, v), (a.payload, x["p"]), (a.first, x["f"]), (a.last, x["l"]), (b.ready, ordy)], outs)
        ev.append(dict(v=v, ordy=ordy, **x, **o) | dict(p=nm(x["p"]), op=nm(o["op"])))
        if v and o["rdy"]:
            hold = None
    return [dict(spec="TChain", cfg=dict(depth=depth, lag=3, ff=int(fl in (1, 2)), ll=int(fl in (1, 3))), ev=ev,
                 id=f"chain {kind} depth={depth} pw={pw} marks={fl} seed={seed}")]


def jobs(tier, rng):
    reps = 1 if tier == "quick" else 6
    for _ in range(reps):
        for mode in ["attach", "connect", "stream_eq", "tap", "tap_ready"]:
            for extra in [None, [("tag", 3)], [("a", 1), ("b", 9)]]:
                names = ["valid", "ready", "first", "last", "payload"] + [f for f, _ in extra or []]
                omits = [None] if mode.startswith("tap") else [None, ["ready"], [names[-1]]] + [
                    [n for n in names if rng.random() < .3] for _ in range(3)]
                for omit in omits:
                    yield "link", dict(mode=mode, omit=omit, extra=extra, pw=rng.choice([1, 8, 16, 24, 32, 48]), vw=rng.choice([1, 1, 4]),
                                       cycles=60, seed=rng.getrandbits(30))
        for kind in ["sync", "buffered"]:
            for depth in [2, 3, 4, 8, 13]:
                for fl in (0, 1, 1, 2, 3):
                    yield "chain", dict(kind=kind, depth=depth, pw=rng.choice([1, 8, 16, 24, 32, 48]), fl=fl,
                                        cycles=500 if tier == "quick" else 4000, seed=rng.getrandbits(30), kw=rng.getrandbits(1))
