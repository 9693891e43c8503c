"""A03 StreamILA: samples over a stream, also into another clock domain."""
import random
from amaranth import Module, ClockDomain
from amlib.debug.ila import StreamILA
from rtlsim import Sim
from checks.a02_ila_spi import Capture, mksigs, lsb

MC = [("MCIlaStream", f"MCIlaStream{k}.cfg") for k in "AB"]
MC_THOROUGH = [("MCIlaStream", "MCIlaStreamT.cfg")]


class Ready:
    """Consumer: ready at random, always, or only after it has seen valid."""

    def __init__(self, rng, style):
        self.rng, self.style, self.v = rng, style, 0

    def next(self):
        if self.style == "always":
            return 1
        if self.style == "polite":
            return int(self.v and self.rng.random() < .7)
        if self.rng.random() < .02:
            self.style = self.rng.choice([.02, .2, .5, .9])
        p = self.style if isinstance(self.style, float) else .5
        return int(self.rng.random() < p)


def run(p, depth, en, widths, dom, odom, style, n, seed):
    rng = random.Random(seed)
    sigs = mksigs(widths)
    total = sum(map(abs, widths))
    dut = StreamILA(signals=sigs, sample_depth=depth, samples_pretrigger=p, with_enable=en, domain=dom, **({"o_domain": odom} if odom else {}))
    cdc = odom not in (None, dom)
    top = Module()
    for d in {dom, odom or dom}:
        if d != "sync":
            setattr(top.domains, d, ClockDomain(d, reset_less=False))
    top.submodules.dut = dut
    sim = Sim(top)
    drv = Capture(dut, sim, sigs, en, rng)
    st = dut.stream
    outs = dict(complete=dut.complete, capturing=dut.capturing, valid=st.valid, payload=st.payload, first=st.first, last=st.last)
    w = len(st.payload)
    ready, ev, tp, ep, hist, wait = Ready(rng, style), [], .1, 1, 0, 0
    ratio = rng.choice([(1, 1), (1, 1), (.5, 1), (1, .5), (.15, 1), (1, .15), (.8, .9)])
    rdy, act, k = 0, None, 0
    while len(ev) < n:
        if cdc:
            wt, rt = int(rng.random() < ratio[0]), int(rng.random() < ratio[1])
            if not (wt or rt):
                continue
        else:
            wt = rt = 1
        if rng.random() < .02:
            tp = rng.choice([.01, .1, .5])
        busy = sim.peek(dut.capturing)
        fired = bool(ev) and any(e["trig"] and e["wt"] for e in ev[-1:])
        if wt or act is None:
            # enabled samples only come before a trigger (see the specification)
            if busy or fired:
                e1 = int(rng.random() < ep)
                if wt:
                    hist = 0
            else:
                e1 = 1
                ep = rng.choice([.3, .7, 1])
            trig = int(hist > 2 * p + 6 and rng.random() < tp) if (en or hist <= 2 * p + 6) else int(rng.random() < tp)
            if busy and rng.random() < tp:
                trig = 1               # ignored while capturing
            if k < 2 * p + 8:
                trig = 0
            if wt:
                hist += 1
                k += 1
            act = drv.stim(e1, trig) + (e1, trig)
        # inputs of the other domain do not change without its clock edge
        if rt:
            rdy = ready.next()
        inp, v, e1, trig = act
        o = sim.cycle(inp + [(st.ready, rdy)], outs, *([dom] * wt + [odom or dom] * (rt and cdc)))
        if rt:
            ready.v = o["valid"]
        ev.append(dict(o, payload=lsb(o["payload"], w), en=e1, trig=trig, ready=rdy, wt=wt, rt=rt, **{"in": v}))
    cyc = [e for e in ev if e["wt"]]
    for e, f in zip(cyc, cyc[1:] + [dict(capturing=0)]):
        e["acc"] = int(e["trig"] and f["capturing"] and (not e["capturing"] or e["complete"]))
    for e in ev:
        e.setdefault("acc", 0)
    last = max(i for i, e in enumerate(ev) if e["wt"])
    ev = ev[:last]                     # of the last trigger it is not known whether it was accepted
    return [dict(spec="TIlaStream", id=f"stream pre={p} depth={depth} enable={en} widths={widths} {dom}->{odom} {style} ratio={ratio} seed={seed}",
                 cfg=dict(p=p, depth=depth, en=en, w=1 << (total - 1).bit_length(), cdc=cdc, lim=3 if not cdc else 20 + int(14 * ratio[1] / ratio[0])),
                 ev=ev)]


def jobs(tier, rng):
    k = 6 if tier == "thorough" else 1
    ws = lambda: [rng.choice([1, 3, -4, 8, 12]) for _ in range(rng.randrange(1, 4))] + rng.choice([[], [], [30]])
    for _ in range(k):
        for style in ("always", "polite", "mixed"):
            for depth in (1, 2, 3, 4, 7, 16, 20):
                yield "run", dict(p=rng.choice([0, 0, 1, 2, 3, 5]) if depth > 3 else rng.choice([0, 1]), depth=depth, en=bool(rng.getrandbits(1)), widths=ws(),
                                  dom=rng.choice(["sync", "fast"]), odom=None, style=style, n=900, seed=rng.randrange(10**6))
        for depth in (rng.choice([63, 64, 65]), rng.choice([128, 129])):
            yield "run", dict(p=rng.choice([0, 1, 2, 10, 17, 40]), depth=depth, en=bool(rng.getrandbits(1)), widths=rng.choice([[8], [33, 32], [1, 31], [100]]),
                              dom=rng.choice(["sync", "fast"]), odom=rng.choice([None, None, "out"]), style=rng.choice(["always", "polite"]), n=14 * depth, seed=rng.randrange(10**6))
        for dom, odom in (("sync", "out"), ("cap", "sync"), ("cap", "out"), ("sync", "sync"), ("cap", "cap")):
            for style in ("always", "polite", "mixed"):
                yield "run", dict(p=rng.choice([0, 1, 3]), depth=rng.choice([1, 1, 2, 4, 9, 16, 24, 40]), en=rng.random() < .3, widths=ws(),
                                  dom=dom, odom=odom, style=style, n=1500, seed=rng.randrange(10**6))
